Q = 'number/QQ.hh'
N = 'number.hh'
CASES = [
 # rationals
 ('r3_q_neg_den', 'N06', 'V', [(Q, "        r._num = -a._num;\n        r._den = a._den;", "        r._num = a._num;\n        r._den = -a._den;")]),
 ('r3_q_neg_zero', 'N06', 'V', [(Q, "        QQ r;\n        r._num = -a._num;\n        r._den = a._den;\n        return r;", "        QQ r;\n        if (a._num.is_zero()) { r._den = ZZ(0); return r; }\n        r._num = -a._num;\n        r._den = a._den;\n        return r;")]),
 ('r3_q_mul_cross', 'N06', 'V', [(Q, "        r._num = a._num * b._num;\n        r._den = a._den * b._den;\n        r._canonicalize();", "        ZZ g1 = gcd(a._num, b._den);\n        r._num = (a._num / g1) * b._num;\n        r._den = a._den * (b._den / g1);")]),
 ('r3_q_mul_cross_ok', 'N06', 'Q', [(Q, "        r._num = a._num * b._num;\n        r._den = a._den * b._den;\n        r._canonicalize();", "        ZZ n = a._num * b._num;\n        r._den = a._den * b._den;\n        r._num = n;\n        r._canonicalize();")]),
 ('r3_q_canon_sign', 'N06', 'V', [(Q, "            _num = -_num;\n            _den = -_den;", "            _den = -_den;")]),
 ('r3_q_canon_zero', 'N06', 'V', [(Q, "        if (_num.is_zero()) {\n            _den = ZZ(1);\n            return;\n        }", "        if (_num.is_zero()) {\n            return;\n        }")]),
 ('r3_q_ctor_ll', 'N06', 'V', [(Q, "    QQ(long long num, long long den) : _num(num), _den(den) {\n        if (_den.is_zero()) throw std::domain_error(\"QQ: zero denominator\");\n        _canonicalize();", "    QQ(long long num, long long den) : _num(num), _den(den) {\n        if (_den.is_zero()) throw std::domain_error(\"QQ: zero denominator\");\n        if (num % den == 0) { _num = ZZ(num / den); _den = ZZ(1); }")]),
 ('r3_q_sub_samedens', 'N06', 'V', [(Q, "        r._num = a._num * b._den - b._num * a._den;\n        r._den = a._den * b._den;\n        r._canonicalize();\n", "        if (a._den == b._den) {\n            r._num = a._num - b._num;\n            r._den = a._den;\n            return r;\n        }\n        r._num = a._num * b._den - b._num * a._den;\n        r._den = a._den * b._den;\n        r._canonicalize();\n")]),
 ('r3_q_sub_samedens_ok', 'N06', 'Q', [(Q, "        r._num = a._num * b._den - b._num * a._den;\n        r._den = a._den * b._den;\n        r._canonicalize();\n", "        if (a._den == b._den) {\n            r._num = a._num - b._num;\n            r._den = a._den;\n            r._canonicalize();\n            return r;\n        }\n        r._num = a._num * b._den - b._num * a._den;\n        r._den = a._den * b._den;\n        r._canonicalize();\n")]),
 ('r3_q_addasg_inplace', 'N06', 'V', [(Q, "    QQ& operator+=(const QQ& b) { *this = *this + b; return *this; }", "    QQ& operator+=(const QQ& b) {\n        _num = _num * b._den;\n        _num += b._num * _den;\n        _den = _den * b._den;\n        _canonicalize();\n        return *this;\n    }")]),
 ('r3_q_addasg_ok', 'N06', 'Q', [(Q, "    QQ& operator+=(const QQ& b) { *this = *this + b; return *this; }", "    QQ& operator+=(const QQ& b) {\n        ZZ n = _num * b._den + b._num * _den;\n        _den = _den * b._den;\n        _num = n;\n        _canonicalize();\n        return *this;\n    }")]),
 ('r3_q_divasg_inplace', 'N06', 'V', [(Q, "    QQ& operator/=(const QQ& b) { *this = *this / b; return *this; }", "    QQ& operator/=(const QQ& b) {\n        if (b._num.is_zero()) throw std::domain_error(\"QQ: division by zero\");\n        _num *= b._den;\n        _den *= b._num;\n        _canonicalize();\n        return *this;\n    }")]),
 ('r3_q_divasg_throw', 'N06', 'V', [(Q, "    QQ& operator/=(const QQ& b) { *this = *this / b; return *this; }", "    QQ& operator/=(const QQ& b) {\n        QQ t;\n        t._num = _num * b._den;\n        t._den = _den * b._num;\n        t._canonicalize();\n        swap(t);\n        return *this;\n    }")]),
 ('r3_q_asg_ll', 'N06', 'V', [(Q, "        _num = v; _den = ZZ(1);\n        return *this;", "        _num = v; if (!v) _den = ZZ(1);\n        return *this;")]),
 ('r3_q_read', 'N06', 'V', [(Q, "            q = QQ(ZZ(s.substr(0, pos)), ZZ(s.substr(pos + 1)));", "            q._num = ZZ(s.substr(0, pos));\n            q._den = ZZ(s.substr(pos + 1));\n            q.canonicalize();")]),
 ('r3_q_read2', 'N06', 'V', [(Q, "            q._num = ZZ(s);\n            q._den = ZZ(1);", "            q._num = ZZ(s);")]),
 ('r3_q_pow', 'N06', 'V', [(Q, "    r._num = pow(base._num, exp);\n    r._den = pow(base._den, exp);", "    r._num = pow(base._num, exp);\n    if (exp) r._den = base._den;")]),
 ('r3_q_abs', 'N06', 'V', [(Q, "    QQ r;\n    r._num = abs(q._num);\n    r._den = q._den;\n    return r;", "    QQ r;\n    r._num = abs(q._num);\n    if (q._num.sgn() > 0) r._den = q._den;\n    return r;")]),
 ('r3_q_lt', 'N06', 'V', [(Q, "        return a._num * b._den < b._num * a._den;", "        if (a._den == b._den) return a._num < b._num;\n        if (a._num.sgn() != b._num.sgn()) return a._num.sgn() < b._num.sgn();\n        return a._num * b._den < b._num * b._den;")]),
 ('r3_q_bdiv', 'N06', 'V', [(N, "    inline void __div(QQ &op,const ZZ &op1,const ZZ&op2)\n    {\n        op=QQ(op1,op2);", "    inline void __div(QQ &op,const ZZ &op1,const ZZ&op2)\n    {\n        op=QQ(op1/op2);")]),
 ('r3_q_swap', 'N06', 'V', [(Q, "        _num.swap(o._num);\n        _den.swap(o._den);", "        _num.swap(o._num);\n        if (!(_den == o._den) && !_num.is_zero()) _den.swap(o._den);")]),
 # residues
 ('r3_zp_inv_s3', 'N07', 'V', [(N, "            s3 = s1 >= sq_mod ? s1 - sq_mod : _p - sq_mod + s1;", "            s3 = s1 > sq_mod ? s1 - sq_mod : _p - sq_mod + s1;")]),
 ('r3_zp_inv_width', 'N07', 'V', [(N, "            uint64_t sq_mod = (unsigned __int128)s2 * q % _p;", "            uint64_t sq_mod = s2 * q % _p;")]),
 ('r3_zp_norm32', 'N07', 'V', [(N, "            norm = (uint32_t)__builtin_clzll(p);", "            norm = (uint32_t)__builtin_clzl(p & ~1ull);")]),
 ('r3_zp_pre', 'N07', 'V', [(N, "            unsigned __int128 num = ((unsigned __int128)(~pn) << 64) | ~(uint64_t)0;", "            unsigned __int128 num = ((unsigned __int128)(~pn) << 64);")]),
 ('r3_zp_mul_q', 'N07', 'V', [(N, "            q1 += hi + (q0 < lo ? 1 : 0);", "            q1 += hi + (q0 <= lo ? 1 : 0);")]),
 ('r3_zp_mul_fix', 'N07', 'V', [(N, "            if (r > q0) r += pn;\n            if (r >= pn) r -= pn;", "            if (r > q0) r += pn;")]),
 ('r3_zp_i64min', 'N07', 'V', [(N, "            uint64_t abs_i = (i >= 0) ? (uint64_t)i : -(uint64_t)i;\n            uint64_t r = abs_i % p;", "            uint64_t abs_i = std::abs((long)i);\n            uint64_t r = abs_i % p;")]),
 ('r3_zp_asg_neg', 'N07', 'V', [(N, "            this->_i = (r == 0 || i > 0) ? r : this->_p - r;", "            this->_i = (i > 0) ? r : this->_p - r;")]),
 ('r3_zp_ctor_int', 'N07', 'V', [(N, "        Zp(int i, uint64_t p) : Zp((int64_t)i, p) {}", "        Zp(int i, uint64_t p) : Zp((uint64_t)i, p) {}")]),
 ('r3_zp_neg', 'N07', 'V', [(N, "            r._i = (_i == 0) ? 0 : _p - _i;", "            r._i = _p - _i;")]),
 ('r3_zp_add', 'N07', 'V', [(N, "            if (neg > op2._i)\n                op1._i = op1._i + op2._i;", "            if (neg >= op2._i)\n                op1._i = op1._i + op2._i;")]),
 ('r3_zp_addeq', 'N07', 'V', [(N, "            const uint64_t neg = this->_p - this->_i;\n            if (neg > op2._i)\n                this->_i = this->_i + op2._i;\n            else\n                this->_i = op2._i - neg;\n            return *this;", "            this->_i += op2._i;\n            if (this->_i >= this->_p) this->_i -= this->_p;\n            return *this;")]),
 ('r3_zp_addeq_ok', 'N07', 'Q', [(N, "            const uint64_t neg = this->_p - this->_i;\n            if (neg > op2._i)\n                this->_i = this->_i + op2._i;\n            else\n                this->_i = op2._i - neg;\n            return *this;", "            const uint64_t o = op2._i;\n            this->_i += o;\n            if (this->_i < o || this->_i >= this->_p) this->_i -= this->_p;\n            return *this;")]),
 ('r3_zp_muli', 'N07', 'V', [(N, "            op1._i = op1.__nmod_mul(op1._i, Zp(op2, op1._p)._i);", "            op1._i = op1.__nmod_mul(op1._i, op2 >= 0 ? (uint64_t)op2 : Zp(op2, op1._p)._i);")]),
 ('r3_zp_eqi', 'N07', 'V', [(N, "            Zp tmp(op2, op1._p);\n            return op1._i == tmp._i;", "            if (op2 >= 0) return op1._i == (uint64_t)op2;\n            Zp tmp(op2, op1._p);\n            return op1._i == tmp._i;")]),
 ('r3_zp_nei', 'N07', 'V', [(N, "        friend inline bool operator!=(const Zp& op1, const Zp& op2)\n        {\n            assert(op1._p == op2._p);\n            return op1._i != op2._i;", "        friend inline bool operator!=(const Zp& op1, const Zp& op2)\n        {\n            assert(op1._p == op2._p);\n            return (uint32_t)op1._i != (uint32_t)op2._i;")]),
 ('r3_zp_setter', 'N07', 'V', [(N, "        void prime(uint64_t p) { this->_p = p; __precompute(p, _ninv, _norm); }", "        void prime(uint64_t p) { __precompute(this->_p, _ninv, _norm); this->_p = p; }")]),
 ('r3_zp_addmul0', 'N07', 'V', [(N, "        if (op.prime() == 0) op.prime(op1.prime());  // setter 同步更新 _p 和 _ninv\n        op += op1 * op2;", "        if (op.prime() == 0) op = Zp(op1.number(), op1.prime());\n        op += op1 * op2;")]),
 ('r3_zp_pow_swap', 'N07', 'V', [(N, "        Zp o(1,z.prime());", "        Zp o(z.prime(),1);")]),
 ('r3_zp_zz', 'N07', 'V', [(N, "            _i = i.fdiv_ui(p);", "            _i = (i.sgn() < 0 ? -i : i).fdiv_ui(p);\n            if (i.sgn() < 0) _i = p - _i;")]),
 ('r3_zp_hash', 'N07', 'V', [(N, "        void prime(uint64_t p) { this->_p = p; __precompute(p, _ninv, _norm); }", "        void prime(uint64_t p) { if (p == this->_p) return; const uint64_t q = this->_p; this->_p = p; if ((q ^ p) >> 32) __precompute(p, _ninv, _norm); }")]),
 ('r3_zp_mul_alias', 'N07', 'Q', [(N, "            this->_i = this->__nmod_mul(this->_i, op2._i);\n            return *this;", "            const uint64_t w = this->__nmod_mul(op2._i, this->_i);\n            this->_i = w;\n            return *this;")]),
 ('r3_zp_div_swap', 'N07', 'V', [(N, "            op1._i = op1.__nmod_mul(op1._i, inv_prime(op2._i, op1._p));\n            return op1;", "            op1._i = op1.__nmod_mul(op2._i, inv_prime(op1._i, op1._p));\n            return op1;")]),
 ('r3_zp_ge', 'N07', 'V', [(N, "            if (op2 <= 0) return true;\n            return op1._i >= (uint64_t)op2;", "            return (int64_t)op1._i >= op2;")]),
 ('r3_zp_divrem', 'N07', 'V', [(N, "        op=op1/op2;\n        op_r=Zp(0,op.prime());", "        op=op1/op2;\n        op_r=op1-op;")]),
 ('r3_zp_set_zero_ninv', 'N07', 'V', [(N, "            if (this->_p == 0) { assert(i == 0); this->_i = 0; return *this; }\n            uint64_t abs_i", "            if (i == 0) { this->_i = 0; this->_ninv = 0; return *this; }\n            uint64_t abs_i")]),
]
