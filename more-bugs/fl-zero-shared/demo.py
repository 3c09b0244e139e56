import os
import sys

sys.path.insert(0, os.getcwd())
from pymtl3 import b32  # noqa: E402
from mem_ifcs.MemMsg import mk_mem_msg, MemMsgType as T  # noqa: E402
from blocking_cache.BlockingCacheFL import ModelCache  # noqa: E402


def model(size=64, ways=2, banks=0, line=128, data=32, mem=None):
    return ModelCache(size, ways, banks, *mk_mem_msg(8, 32, data, has_wr_mask=False), *mk_mem_msg(8, 32, line), mem)


def tests(m):
    """the test bit of every response so far"""
    return [int(x.test) for x in m.get_transactions()[1::2]]


def datas(m):
    return [int(x.data) for x in m.get_transactions()[1::2]]


# two lines that nothing was written to are read, then one is written
m = model()
m.read(b32(0x1000), 0, 0)
m.read(b32(0x2000), 1, 0)
m.write(b32(0x1000), b32(0x5a5a5a5a), 2, 0)
m.read(b32(0x2000), 3, 0)
got = datas(m)
print([hex(x) for x in got])
sys.exit(got != [0, 0, 0, 0])
