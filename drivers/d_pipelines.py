"""Pipelines; see TracePipelines.

case: {ops: [[declare, declared, meta, outer] | [describe, id] | [call, id, given, input, result]]}
"""
import common

CODES = {-1: None, -2: False, -3: '', -4: True}  # numbers stand for these values


def value(c):
    return CODES.get(c, c)


def code(v):
    for c, x in CODES.items():
        if v is x or (x == '' and isinstance(v, str) and v == ''):
            return c
    return v if type(v) is int else repr(v)


def pairs(d):
    return sorted([n, code(v)] for n, v in d.items())


def run(case, t, d):
    from stempy import pipeline as P
    a, io = P.PipelineAggregation, P.PipelineIO
    t.emit('New', constants=[io.IMAGE, io.FRAME, a.SUM, a.MAX, a.MIN, a.MEAN, a.MEDIAN])
    pipes = []
    box = {}

    def declare(declared, meta, outer):
        def function(x, **kw):
            box.update(input=x, received=pairs(kw))
            return box['returned']
        f = function
        if not outer:
            f = P.pipeline(**meta)(f)
        for n, v in reversed(declared):
            f = P.parameter(n, type='integer', label=n.upper(),
                            description='about ' + n, default=value(v))(f)
        if outer:
            f = P.pipeline(**meta)(f)
        return f

    for o in case['ops']:
        if o[0] == 'declare':
            pipes.append(declare(*o[1:]))
            t.emit('Declare', id=len(pipes), declared=o[1], meta=o[2])
        elif o[0] == 'describe':
            f = pipes[o[1] - 1]
            t.emit('Describe', id=o[1],
                   parameters=[[n, code(v['default'])] for n, v in f.PARAMETERS.items()
                               if v['label'] == n.upper() and v['type'] == 'integer'
                               and v['description'] == 'about ' + n],
                   meta={'name': f.NAME, 'description': f.DESCRIPTION, 'input': f.INPUT,
                         'output': f.OUTPUT, 'aggregation': f.AGGREGATION})
        else:
            box.clear()
            box['returned'] = o[4]
            got = pipes[o[1] - 1](o[3], **{n: value(v) for n, v in o[2]})
            t.emit('Call', id=o[1], given=o[2], passed=o[3], returned=o[4],
                   received=box['received'], input=box['input'], result=got)


if __name__ == '__main__':
    common.main(run)
