"""Writers of the detector file formats (independent of the code under test)."""
import struct
import numpy as np

N = 8


def v1_block(img_numbers_1based, frames, version=1, timestamp=0, rows=None, cols=None):
    frames = np.asarray(frames, dtype='<u2')
    n, h, w = frames.shape
    head = np.zeros(1024, dtype='<u4')
    head[0] = n
    head[1] = h if rows is None else rows
    head[2] = w if cols is None else cols
    head[3] = version
    head[4] = timestamp
    head[10:10 + n] = img_numbers_1based
    return head.tobytes() + frames.tobytes()


def v2_block(first, frames):
    return struct.pack('<I', first) + np.asarray(frames, dtype='<u2').tobytes()


def v3_block(scan_no, frame_no, dims, pos, frame):
    """dims = (width, height), pos = (x, y)"""
    return struct.pack('<IIHHHH', scan_no, frame_no, dims[0], dims[1], pos[0],
                       pos[1]) + np.asarray(frame, dtype='<u2').tobytes()


def sector_of(frame, sector, version):
    frame = np.asarray(frame)
    n = frame.shape[0]
    q = n // 4
    if version == 4:
        return frame[:, sector * q:(sector + 1) * q]
    return frame[sector * q:(sector + 1) * q, :]


def sector_record(scan_no, frame_no, dims, pos, frame, sector, version):
    return struct.pack('<IIHHHH', scan_no, frame_no, dims[0], dims[1], pos[0],
                       pos[1]) + np.ascontiguousarray(
                           sector_of(frame, sector, version), dtype='<u2').tobytes()


def tag_frame(tag, n=N):
    """A frame in which every pixel of sector s of the frame is distinguishable."""
    return (np.arange(n * n, dtype=np.uint32).reshape(n, n) + 64 * tag).astype('<u2')
