#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
P = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, observe, technique, note,
         hook=None, state=None):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
               'observe_at': observe, 'hook_needed': hook}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append(({'id': pid, 'title': title, 'statement': statement,
               'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
               'anchors': anchors}, technique, note))


SCALE = ('STEMPY_VERIF_FRAME_SIZE scales the detector down (frames of 8x8 pixels) so that many '
         'files fit in a check; some cases run with the real size')

prop('P01', 'Single-stream reader delivers every whole block once, in order',
     'Reading files of the versions 1, 2 and 3 with stempy.io.reader returns exactly the whole blocks of '
     'all of the files, in file and stream order, with the documented meaning of every header field and '
     'with the data as written, and then reports the end until the reader is reset, after which it '
     'starts over. A truncated block is reported as an error and its bytes are never combined with '
     'those of another file. The data of a block stay the same after further reads, resets and the '
     'destruction of the reader.',
     ['inputs', 'histories', 'fault_sequences'],
     'all layouts of blocks over files (empty and truncated files included), all header values, all '
     'sequences of read, iteration and reset',
     'The tests read the first blocks of one sample file (or of none); they do not contain several files, '
     'truncated files, reset or a large scan.',
     ['stempy/reader.h', 'stempy/reader.cpp', 'python/stempy/io/__init__.py', 'python/io.cpp'],
     [('StreamReader::read', 'stempy/reader.cpp'), ('StreamReader::readHeader*', 'stempy/reader.cpp'),
      ('StreamReader::reset', 'stempy/reader.cpp'), ('Reader iteration', 'python/stempy/io/__init__.py')],
     ['stempy.io.reader(...).read', 'iteration', 'reset'],
     'TLA+ refinement (TLC) + TLC-generated call scripts + trace validation',
     'StreamReaderBytes (the byte level algorithm) is model checked to refine StreamReader. All '
     'layouts and call sequences within the constants of GenStreamReader are run with the real reader and '
     'every recorded trace is accepted or rejected by TLC. Trusted: the writer of the files, TLC, '
     'the tag projection of the pixels.', hook=SCALE)

prop('P02', 'Single-pass sector reader assembles every frame exactly once',
     'Reading sector files (versions 4 and 5) returns every frame of which a complete sector is in the '
     'files exactly once: first all of the complete frames and then the partial ones, whose missing '
     'sectors are zero. Sectors of different frames are never combined, even if the frames were taken at the '
     'same scan position, and each sector is at its place in the frame, in the order of the sectors and '
     'files on disk or not. A reset discards everything that was read, and data_captured() is the ratio of the complete '
     'sectors to the expected ones.',
     ['inputs', 'histories', 'fault_sequences'],
     'all distributions of the sectors of the frames over files, lost and truncated sectors, several frames '
     'at a position, all scan sizes and sequences of read, iteration, reset and data_captured',
     'The tests do not have sector files at all.',
     ['stempy/reader.h', 'stempy/reader.cpp', 'python/stempy/io/__init__.py'],
     [('SectorStreamReader::read', 'stempy/reader.cpp'), ('SectorStreamReader::readSectorData*', 'stempy/reader.cpp'),
      ('SectorStreamReader::nextStream', 'stempy/reader.cpp'), ('SectorStreamReader::reset', 'stempy/reader.cpp')],
     ['stempy.io.reader(...).read', 'iteration', 'reset', 'data_captured'],
     'TLA+ refinement (TLC) + TLC-generated layouts and calls + trace validation',
     'SectorReaderImpl (round robin over the streams, partial frames) is model checked to refine SectorReader. All layouts '
     'within the constants of GenSectorReader and random larger ones are run with the real '
     'reader; TLC validates every trace.', hook=SCALE,
     state=[('m_frameCache', 'partially assembled frames', 'stempy/reader.h')])

prop('P03', 'Threaded reader delivers every complete frame exactly once',
     'For every number of threads and every interleaving, reading all frames of sector files with the '
     'threaded reader calls the functor exactly once for each frame whose four sectors are complete in the '
     'files, with the assembled data, header and completeness of that frame, and for no other frame. It then '
     'terminates, and after a reset it does so again.',
     ['schedules', 'inputs', 'histories'],
     'all interleavings of the workers, all distributions of sectors over the files, thread counts 1 to 12, repeated resets',
     'No test runs the threaded reader; a sample of schedules could not settle it either.',
     ['stempy/reader.h', 'stempy/reader.cpp', 'stempy/ThreadPool.h'],
     [('SectorStreamThreadedReader::readAll', 'stempy/reader.h'),
      ('SectorStreamThreadedReader::nextStream', 'stempy/reader.cpp'),
      ('the frame cache and its mutexes', 'stempy/reader.h')],
     ['the functor of SectorStreamThreadedReader::readAll (harness/vharness.cpp)'],
     'TLA+ model checking of the worker protocol (TLC) + trace validation of perturbed schedules',
     'ThreadedReader models the workers at the granularity of the mutexes; safety and liveness are model checked '
     'exhaustively within the constants. The binding to the code is by traces of real runs with a random perturbation '
     'of the schedule (delays at function entries, mutex operations and reads): it samples interleavings.', hook=SCALE)

prop('P04', 'Multi-pass reader reads all frames exactly once, any number of times',
     'For every number of threads and every interleaving, reading all frames with the multi-pass reader '
     'calls the functor exactly once for each frame that is in the files, complete or not, with '
     'the data of its sectors (zero where lost), its scan position and whether it is complete. This holds for every '
     'repetition and mixed with loads of individual frames, and it terminates.',
     ['schedules', 'inputs', 'histories'],
     'all interleavings, all distributions of sectors over files, all sequences of readAll and loadFrames',
     'No test uses the multi-pass reader.',
     ['stempy/reader.h', 'stempy/reader.cpp'],
     [('SectorStreamMultiPassThreadedReader::readAll', 'stempy/reader.h'),
      ('SectorStreamMultiPassThreadedReader::createScanMap', 'stempy/reader.h'),
      ('SectorStreamMultiPassThreadedReader::processFrames', 'stempy/reader.h')],
     ['the functor of readAll (harness/vharness.cpp)'],
     'TLA+ model checking of the passes (TLC) + TLC-generated calls + trace validation of perturbed schedules',
     'As P03, with the model MultiPass.', hook=SCALE,
     state=[('m_scanMap', 'where the sectors of the frames are', 'stempy/reader.h')])

prop('P05', 'Random access by position and frame index returns exactly the asked frames',
     'read_frames() of the multi-pass reader returns, for every scan position (index or row and column) and every frame '
     'selector (integer, slice, list, boolean mask or none), exactly the frames at that position that an array of '
     'num_frames_per_scan elements indexed in that way would select, in that order, with the data as written; positions and frames that '
     'do not exist are an error. No call changes the result of a later one.',
     ['inputs', 'histories'],
     'all selectors and positions for all distributions of frames over positions, in all sequences of calls',
     'No test uses read_frames().',
     ['python/stempy/io/__init__.py', 'stempy/reader.h', 'stempy/reader.cpp'],
     [('read_frames', 'python/stempy/io/__init__.py'),
      ('SectorStreamMultiPassThreadedReader::readFrames', 'stempy/reader.h'),
      ('SectorStreamMultiPassThreadedReader::loadFrames', 'stempy/reader.cpp')],
     ['read_frames', 'num_frames_per_scan', 'scan_shape'],
     'TLA+ specification of the selectors and the reader (TLC) + TLC-generated calls + trace validation',
     'The result of a call is a function of the files (model checked in MultiPass); Python indexing '
     'is defined in PySlice. All call sequences within the constants of GenCalls and random ones are run.', hook=SCALE)

exec(open(os.path.join(HERE, 'props_more.py')).read())

NA = []
exec(open(os.path.join(HERE, 'props_na.py')).read())


def main():
    import sys
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['id']
            f.write(json.dumps(p) + '\n')
        for p, _ in NA:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3 lib/build.py small full sched mpi h5 gil',
        'hooks': {'guard': 'STEMPY_VERIF_FRAME_SIZE',
                  'enable': 'cmake -S /verif/cmake builds /repo with -DSTEMPY_VERIF_FRAME_SIZE=8 (lib/build.py)',
                  'source_commits': ['82fb90e']},
        'checks': [{'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} quick',
                    'thorough_cmd': f'python3 check.py {p["id"]} thorough',
                    'technique': t, 'level': 'model_checking', 'level_note': n}
                   for p, t, n in P],
        'not_applicable': [{'property': p['id'], 'reason': r} for p, r in NA],
        'notes': 'TLA+ with TLC; see DESIGN.md.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
