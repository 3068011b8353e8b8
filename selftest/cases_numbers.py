Z = 'number/ZZ.hh'


def c(name, props, exp, *edits):
    return [('num_' + name + '_' + p, p, exp, [(Z, a, b) for a, b in edits]) for p in props.split()]


FD = """            if (rem != 0 && ((rem ^ b._val) < 0))
                --quot;"""
QB = "            int64_t quot = a._val / b._val;\n"
FDR = QB + "            int64_t rem  = a._val % b._val;\n            if (rem != 0 && ((rem ^ b._val) < 0))"
SH = """            if (n >= 63) { _val = (_val < 0) ? -1 : 0; }
            else { _val >>= n; }"""
MV = """        if (_mpz) _mpz_del(_mpz);
        _val = o._val;
        _mpz = o._mpz;
        o._val = 0;
        o._mpz = nullptr;"""
DM = """        if (_mpz && _fits_si(_mpz)) {
            _val = _mpz_get_s64(_mpz);
            _mpz_del(_mpz);
            _mpz = nullptr;
        }"""
AM = """            __int128 sum = static_cast<__int128>(_val) + prod;
            if (sum >= INT64_MIN && sum <= INT64_MAX) {"""
CASES = (
    c('mul_rem', 'N03 N05', 'Q', (FDR, QB + "            int64_t rem = a._val - quot * b._val;\n            if (rem != 0 && ((rem < 0) != (b._val < 0)))"))
    + c('mul_rem_bad', 'N05', 'V', (FDR, QB + "            int64_t rem = a._val - quot * b._val;\n            if (rem != 0 && ((rem < 0) != (a._val < 0)))"))
    + c('shift_min', 'N05', 'Q', (SH, '            _val >>= (n < 63 ? n : 63);'))
    + c('shift_min_bad', 'N05', 'V', (SH, '            _val >>= (n < 63 ? n : 62);'))
    + c('exchange', 'N01 N02 N05', 'Q', (MV, '        if (_mpz) _mpz_del(_mpz);\n        _mpz = std::exchange(o._mpz, nullptr);\n        _val = std::exchange(o._val, 0);'))
    + c('exchange_leak', 'N02', 'V', (MV, '        _mpz = std::exchange(o._mpz, nullptr);\n        _val = std::exchange(o._val, 0);'))
    + c('exchange_keep', 'N02', 'V', (MV, '        if (_mpz) _mpz_del(_mpz);\n        _mpz = std::exchange(o._mpz, _mpz);\n        _val = std::exchange(o._val, 0);'))
    + c('demote', 'N01 N02', 'Q', (DM, """        if (_mpz == nullptr || !_fits_si(_mpz))
            return;
        const int64_t small = _mpz_get_s64(_mpz);
        mpz_ptr old = _mpz;
        _mpz = nullptr;
        _val = small;
        _mpz_del(old);"""))
    + c('demote_leak', 'N02', 'V', (DM, """        if (_mpz == nullptr || !_fits_si(_mpz))
            return;
        _val = _mpz_get_s64(_mpz);
        _mpz = nullptr;"""))
    + c('addmul_narrow', 'N03 N05', 'Q', (AM, """            __int128 sum = static_cast<__int128>(_val) + prod;
            const int64_t narrow = static_cast<int64_t>(sum);
            if (narrow == sum) {"""))
    + c('addmul_narrow_bad', 'N05', 'V', (AM, """            __int128 sum = static_cast<__int128>(_val) + prod;
            const int32_t narrow = static_cast<int32_t>(sum >> 32);
            if ((static_cast<__int128>(narrow) >> 31) == (sum >> 64)) {"""))
    + c('floor_noadj', 'N05', 'V', (FD, '            if (rem < 0 && b._val > 0)\n                --quot;'))
)
N = 'number.hh'
PE = """            const uint64_t neg = this->_p - this->_i;
            if (neg > op2._i)
                this->_i = this->_i + op2._i;
            else
                this->_i = op2._i - neg;"""


def zp(name, exp, *edits):
    return [('num_zp_' + name, 'N07', exp, [(N, a, b) for a, b in edits])]


INV = """        while ((c = a % b))
        {"""
CASES = CASES + (
    zp('add_wrap', 'Q', (PE, "            uint64_t s = this->_i + op2._i;\n            if (s < op2._i || s >= this->_p)\n                s -= this->_p;\n            this->_i = s;"))
    + zp('add_nowrap', 'V', (PE, "            uint64_t s = this->_i + op2._i;\n            if (s >= this->_p)\n                s -= this->_p;\n            this->_i = s;"))
    + zp('add_strict', 'V', (PE, "            uint64_t s = this->_i + op2._i;\n            if (s < op2._i || s > this->_p)\n                s -= this->_p;\n            this->_i = s;"))
    + zp('sub_borrow', 'Q', ("            this->_i = this->_i >= op2._i ? this->_i - op2._i : this->_p - op2._i + this->_i;\n            return *this;", "            const bool borrow = this->_i < op2._i;\n            this->_i -= op2._i;\n            if (borrow)\n                this->_i += this->_p;\n            return *this;"))
    + zp('sub_borrow_late', 'V', ("            this->_i = this->_i >= op2._i ? this->_i - op2._i : this->_p - op2._i + this->_i;\n            return *this;", "            this->_i -= op2._i;\n            if (this->_i >= op2._i && op2._i > this->_p)\n                this->_i += this->_p;\n            return *this;"))
    + zp('inv_rot', 'Q', (INV, "        for (c = a % b; c != 0; c = a % b)\n        {"))
    + zp('inv_rot_bad', 'V', (INV, "        for (c = a % b; c > 1; c = a % b)\n        {"))
)
