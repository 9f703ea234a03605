"""The block ciphers of the library: source file, exported descriptor, block size, maximal key, round counts to cover."""


class C:
    def __init__(self, name, rel, sym, bs, mk, default, extra=(), tweak=0):
        self.name = name
        self.rel = 'block/' + rel
        self.sym = sym
        self.bs = bs
        self.mk = mk
        self.default = default      # key length -> rounds used for rounds == 0
        self.extra = extra          # further round counts covered
        self.tweak = tweak


def k(n):
    return lambda kl: n


w4 = lambda kl: (kl + 3) >> 2
w8 = lambda kl: (kl + 7) >> 3

CIPHERS = [
    C('3way', '3way', 'kripto_block_3way', 12, 12, k(11), (1, 2, 5)),
    C('anubis', 'anubis', 'kripto_block_anubis', 16, 40, lambda kl: max(12, 8 + w4(kl)), (3, 9)),
    C('aria', 'aria', 'kripto_block_aria', 16, 32, lambda kl: max(12, 8 + w4(kl) + (w4(kl) & 1)), (2, 8)),
    C('blowfish', 'blowfish', 'kripto_block_blowfish', 8, 56, k(16), (2, 8)),
    C('camellia', 'camellia', 'kripto_block_camellia', 16, 32, lambda kl: 18 if kl <= 16 else 24),
    C('cast5', 'cast5', 'kripto_block_cast5', 8, 16, lambda kl: 12 if kl <= 5 else 16),
    C('crax_s', 'crax_s', 'kripto_block_crax_s', 8, 16, k(10), (1, 3)),
    C('des', 'des', 'kripto_block_des', 8, 24, k(16)),
    C('gost_cbr', 'gost', 'kripto_block_gost_cbr()', 8, 32, k(32), (8, 12)),
    C('gost_r34', 'gost', 'kripto_block_gost_r34_12_2015()', 8, 32, k(32), (8, 12)),
    C('idea', 'idea', 'kripto_block_idea', 8, 16, k(8), (1, 3)),
    C('khazad', 'khazad', 'kripto_block_khazad', 8, 16, k(8), (2, 5)),
    C('lea', 'lea', 'kripto_block_lea', 16, 32, lambda kl: 24 if kl <= 16 else 28 if kl <= 24 else 32, (4, 12)),
    C('noekeon', 'noekeon', 'kripto_block_noekeon', 16, 16, k(16), (1, 8)),
    C('rc2', 'rc2', 'kripto_block_rc2', 8, 128, k(16)),
    C('rc5', 'rc5', 'kripto_block_rc5', 8, 255, k(12), (1, 4)),
    C('rc6', 'rc6', 'kripto_block_rc6', 16, 255, k(20), (1, 4)),
    C('rectangle', 'rectangle', 'kripto_block_rectangle', 8, 16, k(25), (1, 6)),
    C('rijndael128', 'rijndael', 'kripto_block_rijndael128', 16, 32, lambda kl: max(10, 6 + w4(kl)), (2, 5)),
    C('rijndael256', 'rijndael', 'kripto_block_rijndael256', 32, 32, lambda kl: max(14, 6 + w4(kl)), (2, 5)),
    C('safer', 'safer', 'kripto_block_safer', 8, 16, lambda kl: 6 if kl <= 8 else 10, (1, 4)),
    C('safer_sk', 'safer', 'kripto_block_safer_sk', 8, 16, lambda kl: 6 if kl <= 8 else 10, (1, 4)),
    C('saferpp', 'saferpp', 'kripto_block_saferpp', 16, 32, lambda kl: 7 if kl <= 16 else 10, (1, 4)),
    C('seed', 'seed', 'kripto_block_seed', 16, 16, k(16), (2, 6)),
    C('serpent', 'serpent', 'kripto_block_serpent', 16, 32, k(32), (8, 16)),
    C('shacal2', 'shacal2', 'kripto_block_shacal2', 32, 64, k(64), (16, 32)),
    C('simon32', 'simon32', 'kripto_block_simon32', 4, 8, k(32), (6, 9)),
    C('simon64', 'simon64', 'kripto_block_simon64', 8, 16, lambda kl: 36 + 2 * w4(kl), (6, 9)),
    C('simon128', 'simon128', 'kripto_block_simon128', 16, 32, lambda kl: 68 if kl <= 16 else 69 if kl <= 24 else 72, (6, 9)),
    C('skipjack', 'skipjack', 'kripto_block_skipjack', 8, 10, k(32)),
    C('sm4', 'sm4', 'kripto_block_sm4', 16, 16, k(32), (4, 8)),
    C('speck32', 'speck32', 'kripto_block_speck32', 4, 8, k(22), (2, 5)),
    C('speck64', 'speck64', 'kripto_block_speck64', 8, 16, lambda kl: 23 + w4(kl), (2, 5)),
    C('speck128', 'speck128', 'kripto_block_speck128', 16, 32, lambda kl: 30 + w8(kl), (2, 5)),
    C('tea', 'tea', 'kripto_block_tea', 8, 16, k(32), (1, 8)),
    C('threefish256', 'threefish256', 'kripto_block_threefish256', 32, 32, k(72), (8, 24), 16),
    C('threefish512', 'threefish512', 'kripto_block_threefish512', 64, 64, k(72), (8, 24), 16),
    C('threefish1024', 'threefish1024', 'kripto_block_threefish1024', 128, 128, k(80), (8, 24), 16),
    C('trax_l', 'trax_l', 'kripto_block_trax_l', 32, 32, k(17), (1, 5), 16),
    C('trax_m', 'trax_m', 'kripto_block_trax_m', 16, 16, k(14), (1, 5), 8),
    C('twofish', 'twofish', 'kripto_block_twofish', 16, 32, k(16), (2, 8)),
    C('xtea', 'xtea', 'kripto_block_xtea', 8, 16, k(64), (2, 10)),
]
BY = {c.name: c for c in CIPHERS}
