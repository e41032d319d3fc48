"""Stands in for the zstd library in replays: reads frames of uncompressed blocks."""


class Error(Exception):
    pass


def decompress(data):
    data = bytes(data)
    if data[:4] != b"\x28\xb5\x2f\xfd" or data[4:5] != b"\xa0":
        raise Error("Input data invalid or missing content size in frame header.")
    size = int.from_bytes(data[5:9], "little")
    out, i = [], 9
    while True:
        h = int.from_bytes(data[i:i + 3], "little")
        n = h >> 3
        if h >> 1 & 3 or len(data) < i + 3 + n:
            raise Error("Decompression error")
        out.append(data[i + 3:i + 3 + n])
        i += 3 + n
        if h & 1:
            break
    r = b"".join(out)
    if len(r) != size:
        raise Error("Decompression error")
    return r


ZSTD_uncompress = uncompress = decompress
