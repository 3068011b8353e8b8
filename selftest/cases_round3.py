Z = 'number/ZZ.hh'
Q = 'number/QQ.hh'
CASES = [
 # numbers
 ('r3_z_asg_keep', 'N02', 'V', [(Z, "            if (_mpz) { _mpz_del(_mpz); _mpz = nullptr; }\n            _val = o._val;\n        } else {\n            if (_mpz) {\n                mpz_set", "            if (_mpz) { _mpz_del(_mpz); }\n            _val = o._val;\n        } else {\n            if (_mpz) {\n                mpz_set")]),
 ('r3_z_self_move', 'N05', 'V', [(Z, "    ZZ& operator=(ZZ&& o) noexcept {\n        if (this == &o) return *this;\n", "    ZZ& operator=(ZZ&& o) noexcept {\n")]),
 ('r3_z_neg_nodemote', 'N01', 'V', [(Z, "        mpz_neg(r._mpz, a._mpz);\n        r._demote_if_small();\n        return r;", "        mpz_neg(r._mpz, a._mpz);\n        return r;")]),
 ('r3_z_fdivr_leak', 'N02', 'V', [(Z, "                rem += b._val;\n            if (r._mpz) { _mpz_del(r._mpz); r._mpz = nullptr; }\n            r._val = rem;", "                rem += b._val;\n            r._mpz = nullptr;\n            r._val = rem;")]),
 ('r3_z_fdivqr_order', 'N05', 'V', [(Z, "            int64_t quot = a._val / b._val;\n            int64_t rem  = a._val % b._val;\n            if (rem != 0 && ((rem ^ b._val) < 0)) {\n                --quot;\n                rem += b._val;\n            }\n            if (q._mpz) { _mpz_del(q._mpz); q._mpz = nullptr; }\n            q._val = quot;\n            if (r._mpz) { _mpz_del(r._mpz); r._mpz = nullptr; }\n            r._val = rem;", "            int64_t quot = a._val / b._val;\n            if (q._mpz) { _mpz_del(q._mpz); q._mpz = nullptr; }\n            int64_t rem  = a._val % b._val;\n            if (rem != 0 && ((rem ^ b._val) < 0)) {\n                --quot;\n                rem += b._val;\n            }\n            q._val = quot;\n            rem = a._val - quot * b._val;\n            if (r._mpz) { _mpz_del(r._mpz); r._mpz = nullptr; }\n            r._val = rem;")]),
 ('r3_z_pow_one', 'N05', 'V', [(Z, "    if (base.is_one()) return ZZ(1);", "    if (base.is_one() || (base._is_small() && base._val == -1)) return base;")]),
 ('r3_z_gcd_min', 'N03', 'V', [(Z, "        if (a._val == INT64_MIN || b._val == INT64_MIN) {", "        if (a._val == INT64_MIN) {")]),
 ('r3_z_lcm_min', 'N03', 'V', [(Z, "b._is_small() && a._val != INT64_MIN && b._val != INT64_MIN) {", "b._is_small() && a._val != INT64_MIN) {")]),
 ('r3_z_div_small0', 'N04', 'V', [(Z, "        if (b.is_zero()) throw std::domain_error(\"ZZ: modulo by zero\");\n        if (a._is_small() && b._is_small()) {\n            if (a._val == INT64_MIN", "        if (a._is_small() && b._is_small()) {\n            if (b._val == 0) throw std::domain_error(\"ZZ: modulo by zero\");\n            if (a._val == INT64_MIN")]),
 ('r3_z_fdiv_ui0', 'N04', 'V', [(Z, "        if (d == 0) throw std::domain_error(\"ZZ: modulo by zero\");\n        if (_is_small()) {", "        if (_is_small()) {\n            if (d == 0) throw std::domain_error(\"ZZ: modulo by zero\");")]),
 ('r3_z_inv_late', 'N01', 'V', [(Z, "        if (m.is_zero()) throw std::domain_error(\"ZZ: inverse modulo zero\");\n        result._ensure_mpz();", "        result._ensure_mpz();\n        if (m.is_zero()) throw std::domain_error(\"ZZ: inverse modulo zero\");")]),
 ('r3_z_fdivq_alias', 'N05', 'Q', [(Z, "        q._ensure_mpz();\n        if (a._is_small()) {\n            mpz_t ta;\n            mpz_init(ta); _mpz_set_s64(ta, a._val);\n            mpz_fdiv_q(q._mpz, ta, b._mpz);", "        const bool sa = a._is_small();\n        q._ensure_mpz();\n        if (sa) {\n            mpz_t ta;\n            mpz_init(ta); _mpz_set_s64(ta, a._val);\n            mpz_fdiv_q(q._mpz, ta, b._mpz);")]),
 ('r3_z_submul_alias', 'N05', 'V', [(Z, "            mpz_t ta;\n            mpz_init(ta); _mpz_set_s64(ta, a._val);\n            mpz_submul(_mpz, ta, b._mpz);\n            mpz_clear(ta);", "            mpz_mul_si(_mpz, b._mpz, -a._val);")]),
 ('r3_z_submul_min', 'N03', 'V', [(Z, "            mpz_t tb;\n            mpz_init(tb); _mpz_set_s64(tb, b._val);\n            mpz_submul(_mpz, a._mpz, tb);\n            mpz_clear(tb);", "            if (b._val >= 0) mpz_submul_ui(_mpz, a._mpz, static_cast<unsigned long>(b._val));\n            else mpz_addmul_ui(_mpz, a._mpz, static_cast<unsigned long>(-b._val));")]),
 ('r3_z_submul_ui_ok', ['N03', 'N05'], 'Q', [(Z, "            mpz_t tb;\n            mpz_init(tb); _mpz_set_s64(tb, b._val);\n            mpz_submul(_mpz, a._mpz, tb);\n            mpz_clear(tb);", "            if (b._val >= 0) mpz_submul_ui(_mpz, a._mpz, static_cast<unsigned long>(b._val));\n            else mpz_addmul_ui(_mpz, a._mpz, -static_cast<unsigned long>(b._val));")]),
 ('r3_z_asg_ul', 'N01', 'V', [(Z, "        if (v <= static_cast<unsigned long>(INT64_MAX)) {\n            if (_mpz) { _mpz_del(_mpz); _mpz = nullptr; }\n            _val", "        if (v < static_cast<unsigned long>(INT64_MAX)) {\n            if (_mpz) { _mpz_del(_mpz); _mpz = nullptr; }\n            _val")]),
 ('r3_z_is_one', 'N05', 'V', [(Z, "        if (_is_small()) return _val == 1;", "        if (_is_small()) return _val == 1 || _val == -1;")]),
 ('r3_z_hash_val', 'N01', 'V', [(Z, "            return std::hash<int64_t>{}(_val);\n        }\n        // hash", "            return std::hash<int64_t>{}(_val);\n        }\n        if (_mpz->_mp_size == 1) return std::hash<int64_t>{}(_mpz_get_s64(_mpz)) ^ std::hash<int64_t>{}(_val);\n        // hash")]),
 ('r3_z_fdivui', 'N05', 'V', [(Z, "            return r == 0 ? 0 : d - r;", "            return d - r;")]),
 ('r3_z_sizebase', 'N03', 'V', [(Z, "            if (_val == INT64_MIN) {\n                mpz_t tmp;\n                mpz_init(tmp); _mpz_set_s64(tmp, INT64_MIN);\n                mpz_neg(tmp, tmp);\n                size_t r", "            if (_val == -INT64_MAX) {\n                mpz_t tmp;\n                mpz_init(tmp); _mpz_set_s64(tmp, INT64_MIN);\n                mpz_neg(tmp, tmp);\n                size_t r")]),
 ('r3_z_prime_leak', 'N02', 'Q', [(Z, "    mpz_nextprime(z, z);\n    ZZ result(static_cast<mpz_srcptr>(z));\n    mpz_clear(z);", "    mpz_nextprime(z, z);\n    ZZ result{static_cast<mpz_srcptr>(z)};\n    mpz_clear(z);")]),
]
