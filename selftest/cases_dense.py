D = 'dense_upoly_zp.hh'
N = 'number.hh'


def c(name, exp, *edits, f=D, p='N08'):
    return (name, p, exp, [(f, a, b) for a, b in edits])


STRIP = '''                             B._coeffs.data(), len_b);
            C.__strip();'''
CASES = [
    c('dense_add_naive', 'V', ('''        uint64_t neg = _p - a;      // p - a ∈ [1, p], 不溢出
        return (neg > b) ? a + b    // a + b < p
                         : b - neg; // = a + b - p''', '''        uint64_t s = a + b;
        return s >= _p ? s - _p : s;''')),
    c('dense_add_edge', 'V', ('return (neg > b) ? a + b ', 'return (neg >= b) ? a + b ')),
    c('dense_sub_edge', 'V', ('return (a >= b) ? a - b', 'return (a > b) ? a - b')),
    c('dense_mul_lastcorr', 'V', ('''        if (r >= pn) r -= pn;
        return r >> _norm;''', '''        return r >> _norm;''')),
    c('dense_lll_norm0', 'V', ('if (norm > 0) h |= (lo >> (64 - norm));', 'if (norm > 1) h |= (lo >> (64 - norm));')),
    c('dense_lll_stage1', 'V', ('if (norm > 0) h_shifted |= (mid >> (64 - norm));', '')),
    c('dense_lll_carry', 'V', ('q1 += h + (q0 < l ? 1 : 0);', 'q1 += h;')),
    c('dense_strip_if', 'V', ('while (!_coeffs.empty() && _coeffs.back() == 0)', 'if (!_coeffs.empty() && _coeffs.back() == 0)')),
    c('dense_mul_nostrip', 'V', (STRIP, STRIP.replace('            C.__strip();', ''))),
    c('dense_divrem_noqstrip', 'V', ('''        R.__strip();
        Q.__strip();''', '        Q.__strip();')),
    c('dense_mul_norm_stale', 'V', ('C._p = A._p; C._ninv = A._ninv; C._norm = A._norm;\n        if', 'C._p = A._p; C._ninv = A._ninv;\n        if')),
    c('dense_mul_base_stale', 'V', ('C._p = A._p; C._ninv = A._ninv; C._norm = A._norm;\n        if', 'if')),
    c('dense_divrem_lllorder', 'V', ('R3[i + d].hi, R3[i + d].mid,\n                                          R3[i + d].lo, p', 'R3[i + d].mid, R3[i + d].hi,\n                                          R3[i + d].lo, p')),
    c('dense_polysub_p', 'V', ('C[i] = (B[i] == 0) ? 0 : _p - B[i];', 'C[i] = _p - B[i];')),
    c('dense_add_nolen', 'V', ('''                                  B._coeffs.data(), B._coeffs.size());
        C._coeffs.resize(len);''', '''                                  B._coeffs.data(), B._coeffs.size());
        (void)len;''')),
    c('dense_gcd_nolen', 'V', ('            G._coeffs.resize(len_g);\n', '')),
    c('dense_polyadd_nonorm', 'V', ('return _poly_normalise(C, max_len);\n    }\n\n    // 逐系数模减', 'return max_len;\n    }\n\n    // 逐系数模减')),
    c('dense_divrem_nonormr', 'V', ('size_t len_r = _poly_normalise(R, d);', 'size_t len_r = d;')),
    c('dense_hgcd_nonorm', 'V', ('lenb2 = _poly_normalise(b2, lenb2);', '')),
    c('dense_carry_early', 'V', ('[mid] "+&r"(s.mid), [hi] "+r"(s.hi)\n            : [b0] "rme"', '[mid] "+r"(s.mid), [hi] "+r"(s.hi)\n            : [b0] "rme"')),
    c('dense_carry_adc', 'V', ('adcq %[b1], %[mid]', 'addq %[b1], %[mid]')),
    c('dense_pre_shift', 'V', ('_ninv = __preinvert_limb(_p << _norm);', '_ninv = __preinvert_limb(_p);')),
    c('dense_karmemset', 'V', ('std::memset(b_pad + len_b, 0, ', 'std::memset(b_pad + len_b, 255, ')),
    c('dense_scalar_mul', 'V', ('if (c == 0) { _coeffs.clear(); return; }', '')),
    c('dense_acc_factor', 'V', ('uint64_t c = _p - q_i;   // negmod', 'uint64_t c = 2 * _p - q_i;   // negmod')),
    c('dense_ctor_pre', 'V', ('''uint64_t p) : _p(p)
    {
        __precompute();''', '''uint64_t p) : _p(p)
    {
        _ninv = 0; _norm = 0;''')),
    c('zp_preinv_trunc', 'V', ('return (uint64_t)(num / pn);', 'return (uint64_t)(num / pn) + 0 * pn + (pn == ~(uint64_t)0);'), f=N, p='N07'),
    c('zp_mul_noadd', 'V', ('''        q1 += hi + (q0 < lo ? 1 : 0);''', '''        q1 += hi + (q0 <= lo ? 1 : 0);'''), f=N, p='N07'),
    # equivalents
    c('dense_q_strip', 'Q', ('''        while (!_coeffs.empty() && _coeffs.back() == 0)
            _coeffs.pop_back();''', '''        size_t len = _coeffs.size();
        while (len && !_coeffs[len - 1])
            --len;
        _coeffs.resize(len);''')),
    c('dense_q_normalise', 'Q', ('''        while (len > 0 && A[len - 1] == 0)
            --len;
        return len;''', '''        for (; len != 0; --len)
            if (A[len - 1] != 0)
                break;
        return len;''')),
    c('dense_q_add', 'Q', ('''        return (neg > b) ? a + b    // a + b < p
                         : b - neg; // = a + b - p''', '''        if (b < neg)
            return a + b;
        return b - neg;''')),
    c('dense_q_helper', 'Q', ('''    void __strip()
''', '''    void _adopt(const dense_upoly_zp& o) { _p = o._p; _ninv = o._ninv; _norm = o._norm; }

    void __strip()
'''), ('C._p = A._p; C._ninv = A._ninv; C._norm = A._norm;\n        if', 'C._adopt(A);\n        if')),
    c('dense_q_order', 'Q', ('''        R.__strip();
        Q.__strip();''', '''        Q.__strip();
        R.__strip();''')),
    c('dense_q_w3ref', 'Q', ('''            uint64_t r = _lll_mod_preinv(W3[i + d].hi, W3[i + d].mid,
                                          W3[i + d].lo, _p, _ninv, _norm);''', '''            const word3& top = W3[i + d];
            uint64_t r = _lll_mod_preinv(top.hi, top.mid, top.lo, _p, _ninv, _norm);''')),
    c('dense_q_ifneg', 'Q', ('C[i] = (B[i] == 0) ? 0 : _p - B[i];', '''{
                uint64_t b = B[i];
                if (b != 0)
                    b = _p - b;
                C[i] = b;
            }''')),
    c('dense_q_neghelper', 'Q', ('C[i] = (B[i] == 0) ? 0 : _p - B[i];', 'C[i] = nmod_sub(0, B[i]);')),
    c('dense_q_divremraw', 'Q', ('''            uint64_t r = _lll_mod_preinv(R3[i + d].hi, R3[i + d].mid,
                                          R3[i + d].lo, p, pinv, norm);
            uint64_t q_i = R.nmod_mul(r, inv_lc);
            Q._coeffs[i] = q_i;''', '''            uint64_t q_i = R.nmod_mul(inv_lc, _lll_mod_preinv(R3[i + d].hi, R3[i + d].mid, R3[i + d].lo, p, pinv, norm));
            Q._coeffs[i] = q_i;''')),
    c('dense_q_gcdlen', 'Q', ('        while (lb > 0) {', '        for (; lb != 0;) {')),
    c('dense_q_pair', 'Q', ('''        size_t len_q = _poly_normalise(Q, q_len);
        size_t len_r = _poly_normalise(R, d);
        return {len_q, len_r};''', '''        return std::make_pair(_poly_normalise(Q, q_len), _poly_normalise(R, d));''')),
]
