"""The jobs that decide each property, per tier."""
from dataclasses import dataclass, field
from itertools import product

# seconds for the symbolic runs of one check (the build comes on top)
BUDGET = {'quick': 420, 'thorough': 6000}


@dataclass
class J:
    h: str
    p: dict = field(default_factory=dict)
    time: float = 200
    steps: int = 60_000_000
    mem: int = 3500
    profile: str = 'release'
    native: bool = True
    shim: bool = False
    sched: bool = False
    retries: int = 1
    native_timeout: int = 20
    engine_only: tuple = ()
    covers: tuple = ()
    cost: float = 1
    viol: int = 4

    def name(self):
        return self.h + ''.join(f' {k}={v}' for k, v in self.p.items()) + ('' if self.profile == 'release' else f' [{self.profile}]')


@dataclass
class Prop:
    what: str
    bounds: list
    outside: list
    quick: object
    thorough: object
    assume: list = field(default_factory=list)

    def jobs(self, tier):
        q = self.quick()
        if tier == 'thorough':
            t = self.thorough()
            for j in t:
                j.time = max(j.time, 1500)
            return t
        return q


ASSUME = [
    'the symbolic executor (engine/) interprets LLVM IR, libc and pthread calls faithfully; counterexamples are replayed against the native build',
    'blake3 is modelled as an injective function of its input; zstd, lz4 and lzma are replaced by one reversible block codec (stubs/) with the same streaming interface',
    'the file system is an in-memory model: write, rename, unlink, mmap and seek behave as POSIX says',
]


def jl(h, grid, **k):
    ks = list(grid)
    return [J(h, dict(zip(ks, v)), **k) for v in product(*[grid[x] for x in ks])]


# ---------------------------------------------------------------------------------------- C01
def c01q():
    o = []
    o += jl('c01_seq', {'comp': [0, 1, 2, 3], 'n': [2], 'srcs': [4], 'hints': [2], 'maxlen': [2]}, cost=8, covers=('sequence stored and read back',))
    o += jl('c01_seq', {'comp': [0, 3], 'n': [0, 1], 'srcs': [4], 'hints': [2], 'maxlen': [9]}, covers=('sequence stored and read back',))
    o += jl('c01_width', {'comp': [0, 1, 2, 3], 'base': [256, 65536], 'hint': [0, 1], 'kind': [0, 1]}, covers=('boundary size stored and read back',))
    o += jl('c01_width', {'comp': [3], 'base': [16777216], 'hint': [0, 1], 'kind': [0], 'span': [1]}, steps=2_000_000_000, cost=20, covers=('boundary size stored and read back',))
    o += jl('c01_many', {'comp': [0, 3], 'hint': [0, 1]}, covers=('many contents stored and read back',))
    o += jl('c01_many', {'comp': [3], 'hint': [0], 'n': [8195]}, covers=('many contents stored and read back',))
    o += jl('c01_big', {'comp': [0, 1, 2, 3], 'hint': [0]}, steps=2_000_000_000, cost=15, covers=('cluster-sized contents stored and read back',))
    o += jl('c16_dedup_big', {'comp': [3], 'hint': [0]}, cost=25, covers=('big deduplicated contents stored once',), steps=8_000_000_000)
    o += jl('c01_detect', {'comp': [0, 1, 2, 3]}, covers=('detected contents stored and read back',))
    return o


def c01t():
    o = c01q()
    o += jl('c01_seq', {'comp': [0, 1, 2, 3], 'n': [3], 'srcs': [2], 'hints': [2], 'maxlen': [2]}, cost=50)
    o += jl('c01_seq', {'comp': [0, 3], 'n': [4], 'srcs': [1], 'hints': [2], 'maxlen': [1]}, cost=50)
    o += jl('c01_width', {'comp': [0, 1, 2, 3], 'base': [256, 4096, 16384, 65536], 'hint': [0, 1], 'kind': [1], 'span': [24]}, cost=20)
    return o


PROPS = {}
PROPS['C01'] = Prop(
    'ContentPackCreator::add_content/finalize followed by ContentPack::new/get_content_count/get_content on the bytes it wrote',
    ['0..2 contents of 0..2 symbolic bytes (1 content: 0..9) in every combination of length, hint yes/no, source (memory, file, file range with and without size), per algorithm',
     'contents with symbolic bytes at both ends and total sizes 253..259, 65533..65539, 16777215..16777217 split in 1 or 2 blobs, compressible and incompressible',
     '4098 and 8195 contents (the 4095-blob split), 5 MiB of contents (the 4 MiB cluster limit)', 'every 32-bit content index past the count'],
    ['contents over 16 MiB + 1', 'the real codecs', 'interleavings of the compression workers (C08)'],
    c01q, c01t)


# ---------------------------------------------------------------------------------------- C02
def c02q():
    o = []
    o += jl('c02_int', {'signed': [0, 1], 'n': [1, 2]}, cost=3, covers=('integers read back',))
    o += jl('c02_int', {'signed': [0], 'n': [3]}, cost=3, covers=('integers read back',))
    o += jl('c02_int', {'signed': [0, 1], 'n': [2], 'late': [2]}, cost=6, covers=('integers read back',))
    o += jl('c02_same', {'kind': [0, 1], 'late': [2]}, cost=12, covers=('constant column read back',))
    o += jl('c02_same', {'kind': [0, 1, 2, 3]}, cost=6, covers=('constant column read back',))
    o += jl('c02_array', {'fixed': [0, 1, 3], 'indexed': [0, 1], 'maxlen': [4]}, cost=2, covers=('arrays read back',))
    o += jl('c02_array', {'fixed': [0, 1], 'indexed': [0, 1], 'maxlen': [2], 'n': [3]}, cost=2, covers=('arrays read back',))
    o += jl('c02_array', {'fixed': [2], 'indexed': [0, 1], 'minlen': [254], 'maxlen': [258]}, cost=2, covers=('arrays read back',))
    o += jl('c02_array2', {'share': [0, 1], 'indexed': [0, 1]}, cost=8, covers=('arrays read back',))
    o += jl('c02_content', {'n': [1, 2, 3]}, covers=('content addresses read back',))
    o += jl('c02_variant', {'shape': [0], 'common': [0, 1]}, cost=16, covers=('variants read back',))
    o += jl('c02_variant', {'shape': [1, 2, 3, 4], 'common': [0, 1, 2]}, cost=6, covers=('variants read back',))
    o += jl('c02_variant', {'shape': [5], 'common': [0, 1]}, cost=20, covers=('variants read back',))
    o += jl('c02_index', {'n': [0, 1, 2, 3]}, covers=('windows read back',))
    o += jl('c02_many', {'indexed': [0, 1], 'fixed': [0, 2]}, cost=20, steps=2_000_000_000, covers=('many values read back',))
    o += jl('c15_huge', {'sort': [0], 'n': [65540]}, cost=6, steps=8_000_000_000, covers=('references are final positions',))
    o += jl('c02_mix', {'n': [1]}, cost=4, covers=('mixed entries read back',))
    S = {'steps': 2_000_000_000}
    for what, ks in ((0, (0, 255, 256)), (1, (0, 255, 256)), (2, (254, 255)), (3, (31, 32, 33)), (6, (8, 255, 256)), (7, (254,)), (8, (254,))):
        o += jl('c02_limit', {'what': [what], 'k': list(ks)}, cost=3, **S)
    o += jl('c02_limit', {'what': [5], 'props': [1], 'k': [127, 128]}, **S)
    o += jl('c02_limit', {'what': [5], 'k': [254, 255, 256, 257]}, **S)
    o += jl('c02_limit', {'what': [7], 'k': [65534], 'indexed': [1]}, cost=40, mem=9000, **S)
    o += jl('c02_limit', {'what': [7], 'k': [65535], 'indexed': [0, 1]}, cost=40, mem=9000, **S)
    return o


def c02t():
    o = c02q()
    o += jl('c02_int', {'signed': [0, 1], 'n': [3, 4]}, cost=60)
    o += jl('c02_variant', {'shape': [0, 5], 'common': [2]}, cost=60)
    o += jl('c02_variant', {'shape': [0, 1, 2, 4], 'common': [0, 1], 'small': [0]}, cost=60)
    o += jl('c02_variant', {'shape': [1, 2, 3, 4], 'common': [1], 'n': [3]}, cost=60)
    o += jl('c02_mix', {'n': [2]}, cost=100)
    o += jl('c02_array', {'fixed': [0, 1, 2, 5], 'indexed': [0, 1], 'maxlen': [4], 'n': [3]}, cost=20)
    o += jl('c02_array2', {'share': [0, 1], 'indexed': [0, 1], 'n': [3], 'maxlen': [1]}, cost=40)
    o += jl('c02_index', {'n': [4, 5]}, cost=20)
    o += jl('c02_limit', {'what': [4], 'k': [21000, 22000]}, cost=300, steps=20_000_000_000)
    return o


PROPS['C02'] = Prop(
    'EntryStore::add_entry, DirectoryPackCreator::finalize/write followed by DirectoryPack/Index/AnyBuilder reads of every declared window of the bytes written',
    ['1..3 entries; unsigned and signed columns over all 64-bit values; content addresses over all 16/32-bit values; arrays of 0..4 and 254..258 bytes with inline prefix 0..3, plain and indexed stores, shared or separate',
     'six variant shapes (empty variant, zero-size constant columns, swapped columns, padded) under three common parts', 'every index window of 0..3 entries and every 32-bit position past its end',
     'values given as words computed only when they are written, unsigned and signed; every entry read through the any-builder and through the typed property builders (whole arrays, in parts, compared)',
     'counts at the limits of the format: 255/256 properties, names, variants, value stores, inline prefixes of 31..33, 64 KiB tails, arrays of 64 KiB'],
    ['more than 3 symbolic entries', 'arrays over 64 KiB + 1', 'stores with millions of values'],
    c02q, c02t)


# ---------------------------------------------------------------------------------------- C03
def c03q():
    o = []
    c = ('sorted store searched',)
    o += jl('c03_sort', {'kind': [0], 'n': [0, 1, 2]}, cost=3, covers=c)
    o += jl('c03_sort', {'kind': [1], 'n': [1, 2]}, cost=30, covers=c)
    o += jl('c03_sort', {'kind': [0, 1], 'n': [3], 'bits': [9]}, cost=10, covers=c)
    o += jl('c03_sort', {'kind': [2], 'fixed': [0, 1, 3], 'indexed': [0, 1], 'maxlen': [2]}, cost=3, covers=c)
    o += jl('c03_sort', {'kind': [2], 'fixed': [2], 'indexed': [0, 1], 'maxlen': [4], 'qlen': [3]}, cost=10, covers=c)
    o += jl('c03_sort', {'kind': [2], 'fixed': [0, 1], 'indexed': [0, 1], 'maxlen': [1], 'n': [3]}, cost=3, covers=c)
    for f in (3, 5):
        o += jl('c03_sort', {'kind': [2], 'fixed': [f], 'indexed': [0, 1], 'minlen': [f - 1], 'maxlen': [f + 2], 'pre': [f]}, cost=6, covers=c)
    o += jl('c03_sort', {'kind': [3, 4], 'maxlen': [1], 'bits': [8], 'indexed': [0, 1]}, cost=3, covers=c)
    o += jl('c03_sort', {'kind': [5], 'maxlen': [1], 'fixed': [0, 1], 'indexed': [0, 1]}, cost=3, covers=c)
    o += jl('c03_sort', {'kind': [0], 'win': [1], 'n': [3], 'bits': [7]}, cost=6, covers=c)
    o += jl('c03_sort', {'kind': [2], 'variants': [1]}, cost=8, covers=c)
    c = ('large sorted store searched',)
    o += jl('c03_large', {'kind': [0, 1], 'bits': [8], 'dup': [0, 10]}, cost=8, covers=c)
    o += jl('c03_large', {'kind': [2], 'indexed': [1], 'dup': [0, 5]}, cost=8, covers=c)
    o += jl('c03_large', {'kind': [2], 'indexed': [0], 'n': [18]}, cost=15, covers=c)
    o += jl('c03_large', {'kind': [3], 'bits': [2], 'indexed': [1]}, cost=30, covers=c)
    o += jl('c15_huge', {'find': [1]}, cost=20, steps=8_000_000_000, covers=('references are final positions',))
    o += jl('c03_large', {'kind': [0], 'n': [2100], 'bits': [4]}, cost=14, covers=c)
    return o


def c03t():
    o = c03q()
    o += jl('c03_sort', {'kind': [0], 'n': [3, 4]}, cost=60)
    o += jl('c03_sort', {'kind': [1], 'n': [3]}, cost=100)
    o += jl('c03_sort', {'kind': [3, 4, 5], 'maxlen': [2], 'indexed': [0, 1]}, cost=100)
    o += jl('c03_sort', {'kind': [2], 'n': [3], 'maxlen': [2], 'fixed': [0, 1], 'indexed': [0, 1]}, cost=60)
    o += jl('c03_sort', {'kind': [2], 'n': [4], 'maxlen': [1], 'fixed': [0, 1], 'indexed': [0, 1]}, cost=60)
    o += jl('c03_large', {'kind': [2], 'n': [40, 100], 'indexed': [0]}, cost=60)
    return o


PROPS['C03'] = Prop(
    'EntryStore sorted on 1 or 2 properties, written by DirectoryPackCreator; order of Index::get_entry and RangeTrait::find in both search modes with the reader\'s PropertyCompare',
    ['0..3 entries with symbolic keys (unsigned and signed over all 64-bit values for 1..2 entries, 9 bits for 3; arrays of 0..4 bytes, inline prefix 0..3, plain and indexed stores; pairs of keys; keys shared by variants), duplicates included, and one symbolic query',
     '40, 2100 and 65540 entries with one symbolic key, with and without duplicates'],
    ['more than 4 symbolic keys', 'sort on content addresses (the reader does not compare them)'],
    c03q, c03t)


# ---------------------------------------------------------------------------------------- C13
def c13q():
    o = []
    c = ('views agree',)
    o += jl('c13_views', {'comp': [0, 3], 'mem': [0], 'depth': [1], 'reads': [2]}, cost=6, covers=c)
    o += jl('c13_views', {'comp': [0, 3], 'mem': [1], 'depth': [2], 'reads': [1]}, cost=16, covers=c)
    o += jl('c13_views', {'comp': [0, 3], 'depth': [2], 'len': [2], 'reads': [2]}, cost=10, covers=c)
    o += jl('c13_views', {'comp': [1, 2], 'depth': [1], 'reads': [1]}, cost=5, covers=c)
    o += jl('c13_views', {'comp': [0, 3], 'pre': [0], 'depth': [0], 'len': [2], 'reads': [3]}, cost=3, covers=c)
    c = ('large views agree',)
    o += jl('c13_large', {'comp': [0, 1, 2, 3], 'mem': [0, 1]}, cost=3, covers=c)
    o += jl('c13_large', {'comp': [0, 3], 'len': [70000], 'pre': [5000]}, cost=10, covers=c)
    o += jl('c13_any', {'comp': [0, 3], 'len': [14]}, cost=10, covers=('any range agrees',))
    o += jl('c13_any', {'comp': [0], 'mem': [1], 'len': [14]}, cost=10, covers=('any range agrees',))
    return o


def c13t():
    o = c13q()
    o += jl('c13_views', {'comp': [0, 1, 2, 3], 'mem': [0, 1], 'depth': [2], 'reads': [2]}, cost=200, covers=('views agree',))
    o += jl('c13_views', {'comp': [0, 3], 'depth': [3], 'len': [2], 'reads': [2]}, cost=200, covers=('views agree',))
    o += jl('c13_any', {'comp': [0, 3], 'len': [40], 'mem': [0, 1]}, cost=70, covers=('any range agrees',))
    return o


PROPS['C13'] = Prop(
    'ByteRegion, ByteSlice, ByteStream (size, cut, as_slice, get_slice, stream, read, size_left, offset, conversions) on contents of a written content pack',
    ['3 symbolic bytes between two other contents of the cluster: every chain of 0..2 cuts (region, slice, cut of a cut) and conversions with every offset and size, then every view; streams with every sequence of 1..3 read sizes 0..4, then to the end and past it',
     '9000 and 70000 bytes: ranges at the 1 KiB, 4 KiB, 8 KiB and 64 KiB steps, read in steps of 1000..5000 bytes', '14 bytes (thorough: 40): all offsets, sizes and inner offsets as symbols',
     'file-backed, in-memory, and each codec'],
    ['ranges outside the content (C06)', 'several threads on one view (C07)', 'the real codecs'],
    c13q, c13t)

# ---------------------------------------------------------------------------------------- C06
def c06q():
    o = []
    c = ('damaged container read',)
    # release and debug profiles take turns over the same grid, so that both see every kind of damage
    for prof, x in (('release', 0), ('dbg', 1)):
        k = dict(covers=c, profile=prof)
        o += jl('c06_alter', {'mode': [0], 'comp': [3 * x], 'shift': [2 * x], 'parts': [2], 'part': [0, 1]}, cost=15, **k)
        o += jl('c06_alter', {'mode': [1 + x], 'comp': [1 + x], 'parts': [2], 'part': [0, 1]}, cost=15, **k)
        o += jl('c06_alter', {'mode': [3 + x], 'comp': [3], 'shift': [2], 'parts': [2], 'part': [0, 1]}, cost=15, **k)
        o += jl('c06_alter', {'mode': [0, 3], 'long': [5000], 'comp': [3 * x], 'parts': [32], 'part': [x, 31 - x]}, cost=10, **k)
        o += jl('c06_block', {'mode': [0], 'comp': [3 - 3 * x], 'wide': [24]}, cost=5, steps=8_000_000_000, **k)
        o += jl('c06_block', {'mode': [3 * x], 'comp': [3 * x], 'many': [120]}, cost=15, steps=8_000_000_000, **k)
        o += jl('c06_infos', {'n': [1100], 'how': [0, 1], 'comp': [3 * x]}, cost=4, profile=prof, covers=('damaged pack read',))
        o += jl('c06_two', {'mode': [3 * x], 'what': [0, 1]}, cost=12, **k)
        o += jl('c06_range', {'mode': [0, 1 + 2 * x], 'how': [0, 2, 4]}, cost=4, **k)
        o += jl('c06_range', {'mode': [3 - 3 * x], 'how': [3, 6]}, cost=12, **k)
        o += jl('c06_range', {'mode': [0, 2, 3], 'how': [1], 'comp': [3], 'parts': [2], 'part': [x]}, cost=16, **k)
        o += jl('c06_range', {'mode': [4 * x], 'how': [5, 7], 'parts': [6], 'part': [0, 1 + x]}, cost=16, **k)
        o += jl('c06_range', {'mode': [0, 3], 'how': [0], 'long': [5000], 'comp': [3 * x]}, cost=4, **k)
        o += jl('c06_range', {'mode': [0, 3], 'how': [1], 'long': [5000], 'comp': [3 * x], 'parts': [16], 'part': [1 + x]}, cost=12, **k)
        o += jl('c06_garbage', {'how': [x, 3, 4, 5, 6], 'max': [150], 'parts': [4], 'part': [0, 1 + x]}, cost=9, profile=prof, covers=('not a Jubako file',))
        o += jl('c06_swap', {'mode': [1, 2, 3, 4]}, **k)
    return o


def c06t():
    o = c06q()
    for prof in ('release', 'dbg'):
        o += jl('c06_alter', {'mode': [0, 1, 2, 3, 4, 5], 'comp': [0, 1, 2, 3], 'shift': [0, 1, 2, 3], 'parts': [2], 'part': [0, 1]}, cost=15, profile=prof)
        o += jl('c06_alter', {'mode': [0, 3], 'w': [1], 'parts': [6], 'part': list(range(6))}, cost=15, profile=prof)
        o += jl('c06_alter', {'mode': [0, 3], 'long': [5000], 'parts': [8], 'part': list(range(8))}, cost=30, profile=prof)
        o += jl('c06_two', {'mode': [0, 1, 2, 3, 4], 'comp': [0, 3], 'what': [0, 1]}, cost=12, profile=prof)
        o += jl('c06_range', {'mode': [0, 1, 2, 3, 4], 'comp': [0, 1, 2, 3], 'how': [0, 2, 3, 4, 6]}, cost=12, profile=prof)
        o += jl('c06_range', {'mode': [0, 1, 2, 3, 4], 'comp': [0, 3], 'how': [1, 5, 7], 'parts': [4], 'part': [0, 1, 2, 3]}, cost=16, profile=prof)
        o += jl('c06_range', {'mode': [0, 1, 3], 'comp': [0, 3], 'how': [0, 3, 4], 'long': [5000]}, cost=16, profile=prof)
        o += jl('c06_range', {'mode': [0, 1, 3], 'comp': [0, 3], 'how': [1, 5, 7], 'long': [5000], 'parts': [8], 'part': list(range(8))}, cost=16, profile=prof)
        o += jl('c06_garbage', {'how': [0, 1, 2, 3, 4, 5, 6], 'max': [260], 'parts': [8], 'part': list(range(8))}, cost=20, profile=prof)
    return o


PROPS['C06'] = Prop(
    'opening (Container::new, tools::open_pack, a file taken for a pack of each kind), checking and reading everything of a damaged file, in the release profile and with debug assertions and overflow checks',
    ['every window of 4 adjacent bytes of every file of a container of 5 contents, any non-zero symbolic difference, each packaging and codec; also with blocks of 5000 bytes (memory-mapped)',
     'in a container of 24 columns and one of 120 contents, a window of every block at its ends, middle and at 254, 1022, 4094 and 65534; the same, and cut off there, in a content pack of 1100 contents',
     'a window of a pack header with a window of its tail or of the next header', 'every truncation; truncated then filled to its length; the start removed',
     'every range from a block to another filled, removed; bytes inserted before a block, appended', 'a file replaced by another of the container, or missing',
     'not Jubako: lengths 0 to 150, 7 patterns with any 4 bytes at any aligned place'],
    ['files whose checksums were made consistent again after the change (outside the statement)', 'more than 4 adjacent arbitrary bytes in one block',
     'the decoders of lz4, lzma, zstd: compressed data is read through a model of them; compressed bytes change by 1, 2, 0x80, 0xFF only'],
    c06q, c06t)


# ---------------------------------------------------------------------------------------- C09
def c09q():
    o = []
    a, b = ('nothing at the destination', 'the new container is complete'), ('the old file is still there', 'the new container is complete')
    k = dict(shim=True)
    for old, c in ((0, a), (1, b)):
        # death at every operation, after every byte
        o += jl('c09_atomic', {'mode': [0, 1, 2], 'fault': [9], 'old': [old], 'comp': [3 if old else 0]}, cost=5, covers=c, **k)
        o += jl('c09_atomic', {'mode': [0, 1, 2], 'fault': [1], 'old': [old], 'comp': [1, 2], 'extra': [1], 'file': [1]}, covers=c, **k)
        # one error, errors that last, an error then anything
        o += jl('c09_atomic', {'mode': [0, 1, 2], 'fault': [6, 22], 'old': [old], 'file': [1], 'extra': [1]}, covers=c, **k)
        o += jl('c09_atomic', {'mode': [0, 1, 2], 'fault': [2, 18], 'old': [old], 'comp': [0]}, covers=c, **k)
        o += jl('c09_atomic', {'mode': [0, 1, 2], 'fault': [3, 19], 'old': [old], 'faults': [2]}, cost=4, covers=c, **k)
        # contents longer than the write buffer
        o += jl('c09_atomic', {'mode': [0, 1, 2], 'fault': [3], 'old': [old], 'big': [9000], 'bighint': [0, 1], 'file': [0, 1]}, cost=2, covers=c, **k)
    o += jl('c09_atomic', {'mode': [0, 1, 2], 'fault': [3], 'name': [1, 2, 3]}, covers=a, **k)
    o += jl('c09_atomic', {'mode': [0, 1, 2], 'fault': [3], 'name': [4], 'old': [0, 1]}, **k)
    return o


def c09t():
    o = c09q()
    k = dict(shim=True)
    o += jl('c09_atomic', {'mode': [0, 1, 2], 'fault': [9], 'old': [0, 1], 'comp': [0, 1, 2, 3], 'extra': [0, 1]}, cost=5, **k)
    o += jl('c09_atomic', {'mode': [0, 1, 2], 'fault': [9], 'big': [20000], 'bighint': [0, 1], 'file': [0, 1]}, cost=50, **k)
    o += jl('c09_atomic', {'mode': [0, 1, 2], 'fault': [7, 23], 'old': [0, 1], 'faults': [3], 'file': [1]}, cost=50, **k)
    return o


PROPS['C09'] = Prop(
    'BasicCreator (new, add_content, finalize) with its threads, AtomicOutFile and the pack writers on a file system where any operation may fail or be the last one; then Container::new, every entry and content, and Container::check',
    ['a container of 3 contents (two symbolic bytes), each packaging, codec, with and without a file at the destination, with and without an extra content pack, contents from memory or files, destination names with and without extension, in a subdirectory, and the one the content pack would get',
     'death before and after every file system operation and after every byte of every write', 'an error returned by any operation (create, write, rename, unlink, read), once or from then on, short writes; every pair of an error and a second error or death',
     'contents of 9000 bytes (more than the write buffer)'],
    ['loss of power: what a completed system call wrote stays', 'other processes at work in the directory', 'a panic of a worker thread counts as the death of the process; a hang too (someone ends it)',
     'one order of the threads: only one of them writes to files at any time'],
    c09q, c09t)


# ---------------------------------------------------------------------------------------- C07
def script(text):
    """'01 12/10': the operations of each thread (see harness/src/c07.rs) as one number"""
    b = []
    for t in text.split('/'):
        b += [int(x, 16) for x in t.split()] + [0xFF]
    b[-1] = 0xFE
    assert len(b) <= 9
    return sum(x << 8 * i for i, x in enumerate(b[:8]))


def c07q():
    o = []
    k = dict(covers=('all threads read',), steps=2_000_000_000)
    h = 'c07_read'
    # readers of one cluster being decoded: one preemption before any atomic operation of the crate
    for c in (1, 2, 3):
        o += sched_jobs(h, {'script': [script('0/0/0'), script('1/21')], 'shape': [0], 'comp': [c], 'budget': [1], 'pb': [1]}, cost=8, **k)
    for t in ('2/3/10', '21/51', '41/31/21', '61/1/11', '0/1/10/01', '4 3/2 1'):
        o += sched_jobs(h, {'script': [script(t)], 'shape': [0], 'budget': [1], 'pb': [1]}, cost=8, **k)
        o += sched_jobs(h, {'script': [script(t)], 'shape': [0], 'budget': [0], 'pb': [3]}, cost=8, **k)
    # two clusters
    for t in ('1/1/12', '21/31', '1 3/3 1'):
        o += sched_jobs(h, {'script': [script(t)], 'shape': [1], 'comp': [3], 'budget': [1], 'pb': [1]}, cost=9, **k)
        o += sched_jobs(h, {'script': [script(t)], 'shape': [1], 'comp': [1], 'budget': [0], 'pb': [3]}, cost=9, **k)
    # the cluster already decoded
    o += sched_jobs(h, {'script': [script('1/21')], 'shape': [0, 1], 'warm': [1], 'budget': [1], 'pb': [2]}, cost=8, **k)
    # eviction while others hold contents of the clusters put out
    o += sched_jobs(h, {'script': [script('e0/f0'), script('e0 f1/e1 f0')], 'shape': [2], 'clusters': [42], 'stride': [2], 'budget': [0], 'pb': [2]}, cost=14, **k)
    o += sched_jobs(h, {'script': [script('e0 e1/e0 f0')], 'shape': [2], 'clusters': [42], 'stride': [4], 'comp': [0], 'mem': [0, 1], 'budget': [0], 'pb': [3]}, cost=14, **k)
    o += sched_jobs(h, {'script': [script('f0/00'), script('00/f0')], 'shape': [2], 'clusters': [41], 'stride': [2], 'comp': [0], 'mem': [0, 1], 'budget': [1], 'pb': [1]}, cost=8, **k)
    o += sched_jobs(h, {'script': [script('d0 d2/f4')], 'shape': [2], 'clusters': [42], 'stride': [2], 'budget': [0], 'pb': [2]}, cost=6, **k)
    # contents dropped, and the pack dropped, while a decoder is at work
    for t in ('d0/d0 21', 'e0 c0/d1 c0', 'd0 c0'):
        o += sched_jobs(h, {'script': [script(t)], 'shape': [0, 1], 'budget': [1], 'pb': [1]}, cost=10, **k)
    # more clusters under way than the pool has threads
    o += sched_jobs(h, {'script': [script('f0/f0'), script('f0/f1'), script('f0/f1/f3')], 'shape': [3], 'stride': [1], 'clusters': [10], 'budget': [0], 'pb': [2]}, cost=5, **k)
    # a file shared by readers of raw contents and a decoder
    for t in ('0/1', '21/3', '1/24', '4/21/0', '36/6/65'):
        o += sched_jobs(h, {'script': [script(t)], 'shape': [4], 'mem': [0, 1], 'budget': [1], 'pb': [1]}, cost=5, **k)
    o += sched_jobs(h, {'script': [script('1/26')], 'shape': [4], 'mem': [0], 'budget': [2], 'pb': [1]}, cost=8, **k)
    h = 'c07_container'
    o += sched_jobs(h, {'script': [script('10/10'), script('20/20'), script('24/21'), script('10/11/20')], 'mode': [0, 3], 'budget': [1], 'pb': [1]}, cost=3, **k)
    o += sched_jobs(h, {'script': [script('0/0')], 'mode': [0, 3], 'big': [5000], 'budget': [1], 'pb': [1]}, 2, cost=15, **k)
    o += sched_jobs(h, {'script': [script('25/25/26'), script('40/50')], 'mode': [0, 2], 'big': [5000], 'budget': [1], 'pb': [1]}, cost=15, **k)
    o += sched_jobs(h, {'script': [script('30/0')], 'mode': [0], 'big': [5000], 'budget': [1], 'pb': [1]}, 4, cost=15, **k)
    o += sched_jobs(h, {'script': [script('10/10'), script('20/20')], 'mode': [3], 'budget': [2], 'pb': [1]}, 2, cost=25, **k)
    return o


def c07t():
    o = c07q()
    k = dict(covers=('all threads read',), steps=2_000_000_000)
    h = 'c07_read'
    o += sched_jobs(h, {'script': [script('1/21'), script('2/3/10')], 'shape': [0], 'comp': [1, 3], 'budget': [2], 'pb': [1]}, 12, cost=100, **k)
    o += sched_jobs(h, {'script': [script('1/1/12')], 'shape': [1], 'budget': [1], 'pb': [2]}, 12, cost=100, **k)
    o += sched_jobs(h, {'script': [script('0/1/10/01'), script('21/31')], 'shape': [0, 1], 'budget': [0], 'pb': [5]}, 6, cost=60, **k)
    o += sched_jobs(h, {'script': [script('e0 f1/e1 f0')], 'shape': [2], 'clusters': [42], 'stride': [2], 'budget': [1], 'pb': [1]}, 12, cost=100, **k)
    o += sched_jobs(h, {'script': [script('1/21')], 'shape': [0, 1], 'warm': [1], 'budget': [2], 'pb': [1]}, 6, cost=60, **k)
    o += sched_jobs(h, {'script': [script('f0/f1')], 'shape': [3], 'stride': [1], 'budget': [1], 'pb': [1]}, 12, cost=100, **k)
    o += sched_jobs('c07_container', {'script': [script('0/0'), script('30/0')], 'mode': [0, 3], 'big': [5000], 'budget': [1], 'pb': [2]}, 6, cost=60, **k)
    o += sched_jobs('c07_container', {'script': [script('20/21'), script('24/20')], 'mode': [0, 3], 'big': [5000], 'budget': [2], 'pb': [1]}, 6, cost=60, **k)
    return o


PROPS['C07'] = Prop(
    'ContentPack, Cluster, SeekableDecoder and its thread pool, FileSource, ByteRegion/ByteSlice/ByteStream and a whole Container (with its caches of packs, stores and indexes) read by several threads at once, under every schedule within the bounds; std and rayon run as they are',
    ['2 to 4 reading threads beside the 8 decoding ones; clusters of up to 3 chunks with the bytes at every chunk edge symbolic, 43 clusters for a cache of 40, 10 clusters for 8 decoding threads; lz4, lzma, zstd and raw; from a file and from memory; 7 ways to read a content',
     'schedules with one preemption before any atomic operation or lock of the crate (two where few threads take part), or up to 2 departures from round robin at blocking operations and wake-ups',
     'no schedule ends in a deadlock'],
    ['schedules with more preemptions, preemptions inside rayon and std', 'weak memory: the interleavings are sequentially consistent', 'spurious wake-ups', 'the real codecs'],
    c07q, c07t)


# ---------------------------------------------------------------------------------------- C08
ALT, BIG, MIX, RAW1 = 0b00_01_00_01, 0x5555_5555_5555_5555, 0b01_10_00_01_10_01, 0b10_01_10_01


def sched_jobs(h, grid, parts=1, **k):
    """the schedules of each job are divided among `parts` jobs by the place of their first departure from the default one"""
    g = dict(grid)
    if parts > 1:
        g.update(parts=[parts], part=list(range(parts)))
    return jl(h, g, sched=True, retries=6, native_timeout=20, viol=2, **k)


def c08q():
    o = []
    k = dict(covers=('pack read back',), steps=2_000_000_000)
    h = 'c08_order'
    # few workers: several departures, at every blocking operation and every callback
    o += sched_jobs(h, {'ncpu': [2, 3], 'n': [4], 'plan': [ALT, MIX, RAW1], 'pb': [3], 'points': [7]}, cost=12, **k)
    o += sched_jobs(h, {'ncpu': [2], 'n': [4], 'plan': [ALT], 'pb': [4], 'points': [0, 2]}, cost=12, **k)
    # more clusters than the queue takes
    o += sched_jobs(h, {'ncpu': [2], 'n': [6], 'plan': [BIG], 'pb': [3], 'points': [3], 'comp': [1, 2]}, cost=20, **k)
    o += sched_jobs(h, {'ncpu': [3], 'n': [8], 'plan': [BIG], 'pb': [2], 'points': [15]}, cost=10, **k)
    o += sched_jobs(h, {'ncpu': [4, 5, 6, 7, 8], 'n': [8], 'plan': [BIG], 'pb': [2], 'points': [2]}, cost=15, **k)
    o += sched_jobs(h, {'ncpu': [9, 12, 16], 'n': [8], 'plan': [ALT | ALT << 8], 'pb': [2], 'points': [2]}, cost=25, **k)
    o += sched_jobs(h, {'ncpu': [16], 'n': [33], 'plan': [BIG], 'pb': [2], 'points': [0]}, 4, cost=25, **k)
    # raw clusters that fill while compressed ones are under way
    o += sched_jobs(h, {'ncpu': [2, 3, 5], 'n': [4], 'plan': [ALT, BIG], 'raw': [4100], 'pb': [2], 'points': [6]}, cost=5, **k)
    o += sched_jobs(h, {'ncpu': [2], 'n': [3], 'plan': [ALT], 'raw': [8200], 'pb': [2], 'points': [6], 'comp': [0, 3]}, cost=5, **k)
    # one preemption at any atomic operation, two at any futex operation
    o += sched_jobs(h, {'ncpu': [2], 'n': [2, 3], 'sched': [1], 'budget': [1], 'pb': [1], 'points': [0], 'verify': [0]}, cost=12, **k)
    o += sched_jobs(h, {'ncpu': [3], 'n': [4], 'sched': [1, 5], 'budget': [1], 'pb': [1], 'points': [0], 'verify': [0]}, cost=25, **k)
    o += sched_jobs(h, {'ncpu': [2], 'n': [6], 'plan': [BIG], 'sched': [1], 'budget': [1], 'pb': [1], 'points': [0], 'verify': [0]}, cost=30, **k)
    o += sched_jobs(h, {'ncpu': [2, 3], 'n': [4], 'sched': [3], 'budget': [2], 'pb': [2], 'points': [0]}, cost=25, **k)
    return o


def c08t():
    o = c08q()
    k = dict(covers=('pack read back',), steps=2_000_000_000)
    h = 'c08_order'
    o += sched_jobs(h, {'ncpu': [2, 3], 'n': [4], 'plan': [ALT, MIX], 'pb': [4], 'points': [7]}, 6, cost=100, **k)
    o += sched_jobs(h, {'ncpu': [2], 'n': [4], 'plan': [ALT], 'pb': [0], 'points': [0]}, cost=100, **k)
    o += sched_jobs(h, {'ncpu': list(range(3, 17)), 'n': [8], 'plan': [BIG], 'pb': [3], 'points': [2]}, 6, cost=100, **k)
    o += sched_jobs(h, {'ncpu': [2, 3], 'n': [2], 'sched': [1], 'budget': [2], 'pb': [1], 'points': [0], 'verify': [0]}, 12, cost=100, **k)
    return o


PROPS['C08'] = Prop(
    'ContentPackCreator (new_with_progress, add_content, finalize) with its worker and writer threads (spmc and mpsc channels and std included) under every schedule within the bounds; then ContentPack: contents count, every address, check()',
    ['1 to 15 workers; 4 to 33 contents of 2 bytes (symbolic) or one cluster each, compressed and raw in turn; fewer and more clusters than the 2 x workers the queue takes; 4100 and 8200 raw contents',
     'schedules with up to 2 departures (up to 3 with one worker) from round robin at any blocking operation and any Progress callback, including which of several waiters a wake-up reaches',
     'one preemption before any atomic operation of any thread, two before any futex operation', 'no schedule ends in a deadlock'],
    ['schedules with more departures', 'weak memory: the interleavings are sequentially consistent', 'spurious wake-ups', 'the real codecs'],
    c08q, c08t)


# ---------------------------------------------------------------------------------------- C10
def c10q():
    o = []
    o += jl('c10_modes', {'mode': [0, 1, 2], 'comp': [0, 1, 2, 3]}, covers=('packaging read back',))
    o += jl('c10_extra', {'mode': [0, 1, 2], 'n': [0, 2]}, covers=('extra packs read back',))
    o += jl('c10_rejoin', {'mode': [0, 1, 2], 'comp': [0, 3]}, covers=('rejoined container read back',))
    c = ('concatenation read back',)
    o += jl('c10_concat', {'n': [1], 'decoy': [0, 1, 2]}, covers=c)
    o += jl('c10_concat', {'n': [2], 'decoy': [0, 2], 'comp': [0, 3]}, cost=5, covers=c)
    o += jl('c10_concat', {'n': [3], 'all': [1], 'base': [1, 65533]}, cost=5, covers=c)
    o += jl('c10_many', {'n': [254, 255, 256, 257], 'concat': [0, 1]}, cost=2, covers=('many packs read back',))
    o += jl('c10_bigpack', {'mode': [0, 1]}, cost=14, steps=8_000_000_000, covers=('big pack read back',))
    o += jl('c10_embed', {'kind': [0, 1, 2, 3], 'len': [0, 1, 2]}, covers=('embedded container read back',))
    o += jl('c10_located', {'base': [1, 9]}, covers=('located packs read back',))
    return o


def c10t():
    o = c10q()
    o += jl('c10_concat', {'n': [3], 'decoy': [0, 1, 2], 'comp': [0, 1, 2, 3]}, cost=20)
    o += jl('c10_concat', {'n': [4], 'all': [1]}, cost=30)
    return o


PROPS['C10'] = Prop(
    'BasicCreator (OneFile, TwoFiles, NoConcat, extra content packs), tools::concat, Container::new/get_* and check',
    ['a container of 5 contents (two with symbolic bytes), 4-5 entries of two variants, two indexes; every mode and codec; moved to another directory',
     '254..257 content packs in one container; content packs beyond 16 MiB',
     'separate packs (1..3 content packs, ids 1.. and up to 65535): every subset in one file in every order, the rest found by location; files left behind deleted, garbage, or same identity with other bytes; concatenated twice',
     'embedded behind 0..8, 63..65, 100 and 4093..4098 bytes of another file (4 of them symbolic)', 'packs moved to another place, wrapped in a container, and relocated'],
    ['orders of more than 4 content packs', 'a container embedded behind another valid pack'],
    c10q, c10t)


# ---------------------------------------------------------------------------------------- C11
def c11q():
    o = []
    c = ('missing packs reported',)
    o += jl('c11_subset', {'n': [1, 2], 'how': list(range(8))}, covers=c)
    o += jl('c11_subset', {'n': [1], 'how': [8]}, cost=3, covers=c)
    o += jl('c11_subset', {'n': [3], 'how': [0, 1, 7], 'comp': [0, 3]}, covers=c)
    o += jl('c11_subset', {'n': [2], 'how': [0, 1, 7], 'wrapped': [1]}, covers=c)
    o += jl('c11_subset', {'n': [2], 'how': [0], 'base': [7, 65534]}, covers=c)
    o += jl('c11_subset', {'n': [2], 'how': [0], 'base': [300], 'step': [5]}, covers=c)
    o += jl('c11_subset', {'n': [1], 'how': [9]}, cost=2, covers=c)
    o += jl('c11_check', {'n': [2, 3]}, covers=('present packs checked',))
    o += jl('c11_check', {'n': [2], 'any': [2]}, cost=3, covers=('present packs checked',))
    o += jl('c11_check', {'n': [2], 'any': [1]}, cost=4, covers=('present packs checked',))
    o += jl('c11_modes', {'mode': [1, 2]}, covers=('missing content file reported',))
    return o


def c11t():
    o = c11q()
    o += jl('c11_subset', {'n': [4], 'how': list(range(8)), 'comp': [0, 3]}, cost=5)
    return o


PROPS['C11'] = Prop(
    'Container::new, get_pack, get_bytes, check and the entries of a container whose content packs are partly unavailable',
    ['1..3 content packs (ids 1.., 7.., 300, 305, 65534..): every subset unavailable, in nine ways (deleted, replaced by another pack or by a container without it, location empty, absolute, a directory, ".", below a file, any 2-character name)',
     'a pack of an identity differing from the recorded one in any one of its bytes (1 pack, 3 changes of the byte)',
     'any change of any checksummed byte of any present pack while another is missing, and of a byte of both its header and its tail'],
    ['a missing directory pack', 'more than 4 content packs', 'a file at the location that is not a pack at all (an error is returned)'],
    c11q, c11t)


# ---------------------------------------------------------------------------------------- C12
def c12q():
    o = []
    c = ('location rewritten',)
    o += jl('c12_set', {'kind': [0, 1, 2, 3, 4], 'n': [1, 2], 'strings': [8]}, cost=2, covers=c)
    o += jl('c12_set', {'kind': [0, 1, 4], 'n': [1], 'times': [2]}, cost=12, covers=c)
    o += jl('c12_set', {'kind': [0], 'n': [2], 'base': [65534]}, cost=2, covers=c)
    o += jl('c12_set', {'kind': [0, 4], 'n': [2], 'strings': [4], 'free': [1]}, cost=2, covers=c)
    o += jl('c12_set', {'kind': [0], 'n': [257], 'strings': [4], 'free': [1]}, cost=15, covers=c)
    o += jl('c12_follow', {'kind': [2, 3]}, covers=('moved pack found',))
    return o


def c12t():
    o = c12q()
    o += jl('c12_set', {'kind': [0, 1, 4], 'n': [2], 'times': [3], 'strings': [5]}, cost=200)
    o += jl('c12_set', {'kind': [0, 4], 'n': [2, 3], 'times': [2]}, cost=60)
    return o


PROPS['C12'] = Prop(
    'tools::set_location, then ManifestPack (pack infos, free data, check infos, check), the file bytes and Container',
    ['manifests of 2..3 packs alone (and 258, with free data of their own), in OneFile and TwoFiles containers and in a concatenation; chains of 1..2 rewrites of any pack with 0, 1, 4 and 13 symbolic ASCII bytes, 213 bytes, multi-byte characters, or of any identity outside the manifest (16 symbolic bytes)',
     'strings of 214..300 bytes must not be stored altered'],
    ['more than 3 rewrites in a row', 'power loss during a rewrite', 'manifests inside a container embedded in another file (set_location refuses them)'],
    c12q, c12t)


# ---------------------------------------------------------------------------------------- C16
def c16q():
    o = []
    B = {'steps': 4_000_000_000}
    o += jl('c16_hints', {'comp': [0, 1, 2, 3]}, cost=5, covers=('hints followed',))
    o += jl('c16_hints', {'comp': [0, 3], 'n': [1], 'srcs': [4], 'maxlen': [6]}, covers=('hints followed',))
    o += jl('c16_sizes', {'comp': [0, 3], 'hint': [0, 1]}, cost=15, covers=('boundary sizes follow the hint',), **B)
    o += jl('c16_sizes', {'comp': [0, 1, 2, 3], 'hint': [0, 1], 'len': [256, 4096, 65536], 'kind': [0, 1]}, covers=('boundary sizes follow the hint',), **B)
    o += jl('c16_many', {'comp': [0, 3]}, covers=('many contents follow the hint',))
    o += jl('c16_modes', {'mode': [0, 1, 2], 'comp': [0, 1, 3]}, covers=('container follows the hint',))
    c = ('deduplicated contents stored once',)
    o += jl('c16_dedup', {'comp': [3]}, cost=20, covers=c)
    o += jl('c16_dedup', {'comp': [0, 3], 'n': [2], 'srcs': [4]}, cost=6, covers=c)
    o += jl('c16_dedup', {'comp': [1, 2], 'n': [2], 'srcs': [1], 'maxlen': [2]}, cost=4, covers=c)
    o += jl('c16_dedup_big', {'comp': [0, 3], 'hint': [0, 1]}, cost=25, covers=('big deduplicated contents stored once',), **B)
    o += jl('c16_dedup_big', {'comp': [0], 'len': [4194306]}, cost=60, covers=('big deduplicated contents stored once',), **B)
    o += jl('c16_dedup_big', {'comp': [0], 'len': [0], 'src2': [1], 'src3': [3]}, cost=25, covers=('big deduplicated contents stored once',), **B)
    o += jl('c16_dedup_basic', {'mode': [0, 1], 'comp': [3]}, cost=14, covers=('deduplicated container read back',))
    return o


def c16t():
    o = c16q()
    o += jl('c16_hints', {'comp': [0, 1, 2, 3], 'n': [3], 'maxlen': [1]}, cost=60)
    o += jl('c16_dedup', {'comp': [0, 3], 'n': [4], 'srcs': [1], 'maxlen': [1]}, cost=100)
    o += jl('c16_dedup', {'comp': [0, 3], 'n': [3], 'srcs': [1], 'maxlen': [3]}, cost=100)
    o += jl('c16_dedup_big', {'comp': [0, 3], 'len': [9000000]}, cost=80, **B)
    o += jl('c16_dedup_big', {'comp': [0, 1, 2, 3], 'hint': [0, 1], 'src2': [0, 1, 2, 3], 'src3': [2]}, cost=30, **B)
    o += jl('c16_dedup_basic', {'mode': [0, 1, 2], 'comp': [0, 1, 2]}, cost=14)
    return o


B = {'steps': 4_000_000_000}
PROPS['C16'] = Prop(
    'ContentPackCreator, CachedContentAdder and BasicCreator; the bytes they write taken apart by an independent decoder (cluster tails, content table)',
    ['1..2 contents (thorough: 3) of 0..2 symbolic bytes (one content: 0..6) in every combination of length, hint (yes, no, detect) and source (memory, file, ranges of a file), per algorithm',
     'sizes 255..257, 4095..4097, 65535..65537 and 4 MiB - 1..+1, beside contents of the other hint; 8195 contents of alternating hints', 'the content file of the high-level creator, each packaging',
     'deduplicating adder: 2..3 symbolic contents of 0..2 bytes, equal or not, any hint and source; contents of 4 MiB - 1, 4 MiB and 4 MiB + 2 differing in one symbolic byte at the start, middle or end'],
    ['a source whose bytes change between two reads', 'two contents with one BLAKE3 hash', 'the real codecs'],
    c16q, c16t)


# ---------------------------------------------------------------------------------------- C14
def c14q():
    o = []
    o += jl('c14_container', {'mode': [0, 1, 2, 3, 4], 'comp': [0, 1, 2, 3]}, covers=('container decoded',))
    o += jl('c14_container', {'mode': [4], 'comp': [3], 'base': [300], 'long': [300]}, covers=('container decoded',))
    c = ('content pack decoded',)
    o += jl('c14_content', {'comp': [0, 1, 2, 3], 'base': [256, 65536], 'hint': [0, 1], 'kind': [0, 1]}, covers=c)
    o += jl('c14_many', {'comp': [0, 3], 'hint': [0, 1]}, covers=c)
    c = ('directory decoded',)
    o += jl('c14_dir', {'kind': [0, 1], 'const': [0, 1], 'n': [1, 2]}, covers=c)
    o += jl('c14_dir', {'kind': [2], 'n': [1, 2]}, covers=c)
    o += jl('c14_dir', {'kind': [3], 'indexed': [0, 1], 'fixed': [0, 1, 3], 'maxlen': [4]}, covers=c)
    o += jl('c14_dir', {'kind': [3], 'indexed': [0, 1], 'fixed': [0, 2], 'minlen': [255], 'maxlen': [258]}, cost=2, covers=c)
    o += jl('c14_dir', {'kind': [3], 'indexed': [0, 1], 'minlen': [65536], 'maxlen': [65537], 'n': [1]}, cost=4, steps=2_000_000_000, covers=c)
    o += jl('c14_dir', {'kind': [4], 'indexed': [0, 1]}, cost=4, covers=c)
    o += jl('c14_old', {'mode': [0, 1, 2, 3, 4], 'comp': [0, 1, 2, 3], 'what': [0, 1, 2, 3]}, covers=('old container read',))
    o += jl('c14_old_dir', {'what': [0, 1, 3]}, covers=('old directory read',))
    o += jl('c14_old_content', {'comp': [0, 1, 2, 3]}, covers=('old content pack read',))
    return o


def c14t():
    o = c14q()
    c = ('directory decoded',)
    o += jl('c14_dir', {'kind': [0, 1, 2], 'const': [1], 'n': [3, 4]}, cost=10, covers=c)
    o += jl('c14_dir', {'kind': [3], 'indexed': [0, 1], 'fixed': [0, 1, 2], 'maxlen': [3], 'n': [3]}, cost=10, covers=c)
    o += jl('c14_dir', {'kind': [4], 'indexed': [0, 1], 'n': [3], 'minlen': [1], 'maxlen': [1]}, cost=20, covers=c)
    o += jl('c14_content', {'comp': [0, 3], 'base': [16777216], 'hint': [0, 1]}, cost=40, steps=2_000_000_000, covers=('content pack decoded',))
    o += jl('c14_many', {'comp': [0, 1, 2, 3], 'hint': [0, 1], 'n': [8200]}, cost=5, covers=('content pack decoded',))
    return o


PROPS['C14'] = Prop(
    'every byte written by the creators (content, directory, manifest and container packs), read by a decoder of the layout that shares no code with jubako; and the current reader on files written by the pinned version',
    ['containers in every packaging and algorithm with symbolic content bytes: magic, version, vendor, reserved bytes, sizes, check position, tail mirror, every CRC, the hash of every pack, locators, pack descriptions, and all entries, indexes and contents equal to what was written',
     'clusters whose contents end at 254..257 and 65534..65537 bytes, 4100 contents',
     'directories with integers over all 64-bit values, content addresses over all 16/32-bit values, arrays of 0..4, 255..258 and 65536..65537 bytes, three variants of different width',
     'corpus/: 25 sets of files written by the pinned version (every packaging and algorithm, a directory with every property kind and width, content packs of several clusters), as they are and with all array bytes, all number bytes, or all raw content bytes replaced by symbols: the current reader and the decoder agree on all of them'],
    ['the real codecs: the corpus and the written files hold streams of the codec model, with one format magic per codec', 'gaps between blocks', 'the hash function itself',
     'two shapes the pinned version wrote wrongly (negative integers in columns too narrow for them, repaired by 19dfeee) are not in the corpus; its container size (5 short) and the size of the checks in the manifest (with the CRC) are accepted in old files only'],
    c14q, c14t)


# ---------------------------------------------------------------------------------------- C15
def c15q():
    o = []
    c = ('references are final positions',)
    o += jl('c15_keys', {'sort': [0], 'n': [0, 1, 2, 3]}, cost=3, covers=c)
    o += jl('c15_keys', {'sort': [1], 'n': [1, 2, 3]}, cost=11, covers=c)
    o += jl('c15_keys', {'sort': [1], 'plain': [1, 2]}, cost=4, covers=c)
    o += jl('c15_keys', {'sort': [1], 'n': [2], 'bits': [64]}, cost=4, covers=c)
    o += jl('c15_order', {'sort': [2, 3]}, cost=6, covers=c)
    o += jl('c15_cross', {'sort0': [0], 'sort1': [1]}, cost=21, covers=c)
    o += jl('c15_cross', {'sort0': [1], 'sort1': [0]}, cost=21, covers=c)
    o += jl('c15_follow', {'first': [0, 1], 'sort0': [3, 4]}, cost=3, covers=c)
    o += jl('c15_many', {'how': [0, 1, 2, 3]}, cost=4, covers=c)
    o += jl('c15_many', {'how': [0, 2], 'plain': [5]}, cost=4, covers=c)
    o += jl('c15_many_cross', {'first': [0, 1], 'n': [255, 256, 257, 300]}, cost=2, covers=c)
    o += jl('c15_huge', {'sort': [0, 1], 'n': [65536, 65540]}, cost=6, steps=8_000_000_000, covers=('references are final positions',))
    o += jl('c15_tree', {'depth': [5, 20, 45]}, cost=1, covers=c)
    return o


def c15t():
    o = c15q()
    o += jl('c15_keys', {'sort': [1], 'n': [4], 'bits': [2]}, cost=300)
    o += jl('c15_order', {'sort': [2, 3], 'n': [4]}, cost=200)
    o += jl('c15_cross', {'sort0': [1], 'sort1': [1], 'bits': [2]}, cost=100)
    o += jl('c15_follow', {'first': [0, 1], 'sort0': [3, 4], 'n': [3]}, cost=60)
    o += jl('c15_many', {'how': [0, 1, 2, 3], 'n': [70000]}, steps=20_000_000_000, cost=200)
    return o


PROPS['C15'] = Prop(
    'Vow/Bound/Word values through EntryStore::add_entry, sorting and DirectoryPackCreator::finalize/write; the stored positions as DirectoryPack reads them, the handles and the indexes bound to an entry',
    ['0..3 entries (thorough: 4): every pattern of references (itself, earlier, later, none), unsorted or sorted on symbolic keys (3 bits; 64 bits for 2 entries), ties included, entries without the property',
     '3 entries sorted on the reference, (reference, key) or (key, reference): every pattern whose references do not come back to where they start and that has exactly one strict order; chains of up to 45 levels',
     'two stores of 2 entries referring to each other, each sorted or not, either one first; a store sorted on references into one that is sorted after it', '255..300 entries: positions of two bytes, one or all entries referring; 65536 and 65540 entries: positions of three'],
    ['references as sort keys whose order is circular, or chains of more than 50 levels inserted in reverse: creation panics ("Cannot sort entry store") and nothing is stored'],
    c15q, c15t)


# ---------------------------------------------------------------------------------------- C04
def c04q():
    o = []
    o += jl('c04_intact', {'mode': [0, 1, 2, 3, 5], 'comp': [0, 1, 2, 3]}, covers=('created container verifies',))
    o += jl('c04_contents', {'mode': [0, 1, 2], 'comp': [0, 3]}, covers=('created container verifies',))
    c = ('altered pack refused',)
    o += jl('c04_big', {'comp': [0, 3]}, cost=2, covers=c)
    o += jl('c04_many', {'n': [257]}, cost=9, covers=c)
    o += jl('c04_wrapped', {'n': [1, 2]}, cost=3, covers=c)
    o += jl('c04_alter', {'mode': [0], 'comp': [0, 3], 'parts': [2], 'part': [0, 1]}, cost=7, covers=c)
    o += jl('c04_alter', {'mode': [1, 2], 'comp': [3]}, cost=15, covers=c)
    o += jl('c04_alter', {'mode': [4], 'comp': [0, 3], 'parts': [2], 'part': [0, 1]}, cost=7, covers=c)
    o += jl('c04_alter', {'mode': [0, 4], 'w': [1], 'parts': [6], 'part': list(range(6))}, cost=6, covers=c)
    o += jl('c04_alter', {'mode': [0, 4], 'reseal': [1], 'parts': [16], 'part': list(range(16))}, cost=8, covers=c)
    o += jl('c04_alter', {'mode': [0, 1, 4], 'block': [1], 'reseal': [0, 1]}, cost=4, covers=c)
    o += jl('c04_alter', {'mode': [3], 'many': [300], 'parts': [64], 'part': [0, 63]}, cost=6, covers=c)
    o += jl('c04_alter', {'mode': [0, 3], 'long': [5000], 'parts': [32], 'part': [0, 31]}, cost=4, covers=c)
    return o


def c04t():
    o = c04q()
    o += jl('c04_alter', {'mode': [0, 1, 2, 3, 4, 5], 'comp': [0, 1, 2, 3], 'shift': [0, 1, 2, 3]}, cost=15)
    o += jl('c04_alter', {'mode': [1, 2, 3], 'comp': [0, 3], 'reseal': [1], 'parts': [16], 'part': list(range(16))}, cost=8)
    o += jl('c04_alter', {'mode': [0, 1, 3], 'long': [5000]}, cost=100)
    o += jl('c04_alter', {'mode': [0, 4], 'comp': [0], 'w': [16], 'parts': [4], 'part': list(range(4))}, cost=100)
    return o


PROPS['C04'] = Prop(
    'Pack::check of ManifestPack, DirectoryPack, ContentPack, ContainerPack::check (tools::open_pack) and Container::check on containers written by the creators, then altered',
    ['created: each packaging (one file, two files, separate packs, 1..3 content packs, packed by ContainerPackCreator) and codec, contents of 0..3 symbolic bytes: every check answers true',
     '257 content packs; a pack of 300 contents', 'altered: every aligned window of 4 bytes (and of 1) covered by the checksum of any pack of a container of 5 contents, any non-zero symbolic difference; blocks of 5000 bytes; packs of 70000 bytes at the steps of the hash reader',
     'every window of 4 bytes of the check block, and any other hash in it with its checksum made consistent',
     'the same with the block checksum made consistent again: one symbolic byte in entries, values, content infos, indexes; any single bit in headers, pointers and tails'],
    ['a collision of BLAKE3', 'changes that also replace the stored hash', 'bytes outside a pack\'s checksum: locations, container header, tail; a check block rewritten as a whole to say there is no checksum',
     'a content pack whose identity was changed together with its block checksum is a missing pack for Container::check'],
    c04q, c04t)


# ---------------------------------------------------------------------------------------- C05
def c05q():
    o = []
    c = ('damaged container read',)
    o += jl('c05_alter', {'mode': [0], 'comp': [0, 3], 'parts': [2], 'part': [0, 1]}, cost=8, covers=c)
    o += jl('c05_alter', {'mode': [1], 'comp': [1, 2], 'shift': [2]}, cost=16, covers=c)
    o += jl('c05_alter', {'mode': [0, 4], 'comp': [3], 'shift': [2]}, cost=16, covers=c)
    o += jl('c05_alter', {'mode': [2, 3, 5], 'comp': [3]}, cost=16, covers=c)
    o += jl('c05_alter', {'mode': [3], 'comp': [0, 3], 'w': [1]}, cost=30, covers=c)
    o += jl('c05_alter', {'mode': [0, 3], 'long': [5000], 'parts': [32], 'part': [0, 31]}, cost=10, covers=c)
    o += jl('c05_two', {'mode': [0, 3], 'what': [0, 1]}, cost=12, covers=c)
    S = {'steps': 8_000_000_000}
    o += jl('c05_block', {'mode': [0, 3], 'comp': [0, 3], 'wide': [24]}, cost=5, covers=c, **S)
    # bits alone: quick to decide where a damaged description is taken as it is and leads anywhere
    o += jl('c05_block', {'mode': [0, 3], 'comp': [0], 'wide': [24], 'flip': [1]}, cost=90, covers=c, **S)
    o += jl('c05_block', {'mode': [3], 'comp': [0], 'wide': [240], 'flip': [1]}, cost=90, covers=c, **S)
    o += jl('c05_block', {'mode': [3], 'comp': [0], 'wide': [240]}, cost=15, covers=c, **S)
    o += jl('c05_block', {'mode': [0], 'comp': [3], 'many': [200]}, cost=25, covers=c, **S)
    o += jl('c05_block', {'mode': [3], 'comp': [0], 'long': [70000]}, cost=30, mem=8000, covers=c, **S)
    o += jl('c05_infos', {'n': [1100]}, cost=3, covers=('damaged pack read',))
    o += jl('c05_infos', {'n': [1100], 'how': [1], 'comp': [0, 3]}, cost=3, covers=('damaged pack read',))
    o += jl('c05_infos', {'n': [16500]}, cost=27, mem=8000, covers=('damaged pack read',), **S)
    o += jl('c05_big', {'mode': [0, 1, 3], 'how': [0]}, cost=3, covers=c)
    o += jl('c05_big', {'mode': [0, 3], 'how': [1], 'parts': [4], 'part': [0, 1, 2, 3]}, cost=12, covers=c)
    o += jl('c05_big', {'mode': [0, 1, 3], 'how': [2]}, covers=c)
    return o


def c05t():
    o = c05q()
    o += jl('c05_alter', {'mode': [0, 1, 2, 3, 4, 5], 'comp': [0, 1, 2, 3], 'shift': [0, 1, 2, 3]}, cost=15)
    o += jl('c05_alter', {'mode': [0, 3], 'long': [5000]}, cost=100)
    o += jl('c05_two', {'mode': [0, 1, 2, 3, 4], 'comp': [0, 3], 'what': [0, 1]}, cost=12)
    o += jl('c05_big', {'mode': [0, 1, 2, 3, 4], 'how': [0, 2], 'comp': [0, 1, 2, 3]}, cost=3)
    o += jl('c05_big', {'mode': [0, 1, 2, 3, 4], 'how': [1], 'comp': [0, 3]}, cost=50)
    return o


PROPS['C05'] = Prop(
    'Container::new and everything it answers (packs, indexes, entries, properties, addresses, sizes, bytes) plus the manifest\'s pack list, on a container altered after creation',
    ['every window of 4 adjacent bytes (aligned, and two bytes further; 1 byte) of every file of a container of 5 contents, any non-zero symbolic difference, each packaging and codec; blocks of 5000 bytes',
     'containers of 24 and 240 columns, 200 contents, and values of 70000 bytes: a window of every block at its ends, middle and at 254, 1022, 4094 and 65534',
     'content packs of 1100 and 16500 contents, whose tables are mapped: a window of every sealed block at the same places, cut off there',
     'a window of a pack header together with a window of its tail or of the next header', 'every block zeroed or filled with ones, alone, with its checksum and to the end of the file; every truncation; 1, 33 and 65 bytes appended'],
    ['changes of more than 4 adjacent bytes in one block that keep its CRC-32 (about one in 2^32)', 'one valid block copied over another',
     'compressed cluster data: only the differences 1, 2, 0x80 and 0xFF of each byte, in the model of the codecs', 'panics on damaged input are left to C06'],
    c05q, c05t)
