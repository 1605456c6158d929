"""C02 bounded: real compressor against an independent decoder of the old format, and the real decoder"""
from pyver.suite import suite
from bounded import ref_compress as R
from bounded.C01 import roundtrip

@suite("C02", quick=12, thorough=200, shards=2)
def roundtrips(rng, i, api):
    """compress, decompress with the real and with an independent decoder"""
    code = R.gen_code(rng, rng.choice([100, 400, 1000])) if i % 40 else R.gen_code(rng, 3300); fast = rng.random() < .5
    api.case((fast, code))
    roundtrip(api, code, fast, True)

@suite("C02", quick=5, thorough=20)
def characters(rng, i, api):
    """every character, alone, repeated and next to others"""
    if i >= 255: raise __import__("pyver.suite").suite.Done()
    c = chr(i + 1)
    for code in (c, c * 3, c * 40, "a" + c + "b", c + "\n" + c):
        for fast in (False, True):
            api.case((fast, code)); roundtrip(api, code, fast, True)
