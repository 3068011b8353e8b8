From 69e9f0e2895dd8e6b7fd6a64825c1f88185e6dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 01/19] fix: ZZ division by zero throws std::domain_error for
 every operand size

Division, modulo, floor division, fdiv_ui and invert checked the divisor only
when both operands were stored inline; with a heap-stored dividend (or for
fdiv_ui/invert always) a zero divisor reached GMP or the CPU and killed the
process with SIGFPE.
---
 clpoly/number/ZZ.hh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index b86ca8b..102594f 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -468,8 +468,8 @@ public:
 
     // ---- arithmetic: truncated division (consistent with mpz_class) ----
     friend ZZ operator/(const ZZ& a, const ZZ& b) {
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             // handle INT64_MIN / -1 overflow
             if (a._val == INT64_MIN && b._val == -1) {
                 ZZ r;
@@ -501,8 +501,8 @@ public:
 
     // ---- arithmetic: modulo (truncated, consistent with mpz_class) ----
     friend ZZ operator%(const ZZ& a, const ZZ& b) {
+        if (b.is_zero()) throw std::domain_error("ZZ: modulo by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: modulo by zero");
             if (a._val == INT64_MIN && b._val == -1) return ZZ(0);
             return ZZ(a._val % b._val);
         }
@@ -691,6 +691,7 @@ public:
 
     // ---- fdiv_ui: floor-mod for Zp ----
     uint64_t fdiv_ui(uint64_t d) const {
+        if (d == 0) throw std::domain_error("ZZ: modulo by zero");
         if (_is_small()) {
             if (_val >= 0) return static_cast<uint64_t>(_val) % d;
             // negative: floor mod = d - ((-val) % d), but 0 if divides evenly
@@ -729,8 +730,8 @@ public:
 
     // ---- floor division (static, for number.hh template specialization) ----
     static void fdiv_q(ZZ& q, const ZZ& a, const ZZ& b) {
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             if (a._val == INT64_MIN && b._val == -1) {
                 q._ensure_mpz();
                 _mpz_set_s64(q._mpz, INT64_MIN);
@@ -765,8 +766,8 @@ public:
     }
 
     static void fdiv_qr(ZZ& q, ZZ& r, const ZZ& a, const ZZ& b) {
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             if (a._val == INT64_MIN && b._val == -1) {
                 q._ensure_mpz();
                 _mpz_set_s64(q._mpz, INT64_MIN);
@@ -808,8 +809,8 @@ public:
 
     // ---- floor remainder (static) ----
     static void fdiv_r(ZZ& r, const ZZ& a, const ZZ& b) {
+        if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            if (b._val == 0) throw std::domain_error("ZZ: division by zero");
             int64_t rem = a._val % b._val;
             if (rem != 0 && ((rem ^ b._val) < 0))
                 rem += b._val;
@@ -837,6 +838,7 @@ public:
     // ---- modular inverse (static) ----
     // Computes result = a^{-1} mod m. Returns true if inverse exists.
     static bool invert(ZZ& result, const ZZ& a, const ZZ& m) {
+        if (m.is_zero()) throw std::domain_error("ZZ: inverse modulo zero");
         result._ensure_mpz();
         mpz_t ta, tm;
         bool need_clear_a = a._is_small(), need_clear_m = m._is_small();
-- 
2.43.0


From 69961d206568a016fceab2968571bca128fe1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 02/19] fix: ZZ::fdiv_r of INT64_MIN by -1 no longer traps

a._val % b._val overflows for INT64_MIN % -1 (SIGFPE on x86); any remainder by
-1 is 0. operator% and fdiv_q/fdiv_qr already handle this case.
---
 clpoly/number/ZZ.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index 102594f..86fec03 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -811,7 +811,7 @@ public:
     static void fdiv_r(ZZ& r, const ZZ& a, const ZZ& b) {
         if (b.is_zero()) throw std::domain_error("ZZ: division by zero");
         if (a._is_small() && b._is_small()) {
-            int64_t rem = a._val % b._val;
+            int64_t rem = (b._val == -1) ? 0 : a._val % b._val;
             if (rem != 0 && ((rem ^ b._val) < 0))
                 rem += b._val;
             if (r._mpz) { _mpz_del(r._mpz); r._mpz = nullptr; }
-- 
2.43.0


From 959111fe012053650abdb08fef287e4fcd085771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 03/19] fix: ZZ never negates INT64_MIN in signed arithmetic

Addition, subtraction, fdiv_ui, sizeinbase and gcd evaluated -_val for
_val == INT64_MIN, which is undefined behaviour; negate in unsigned arithmetic
or only after the INT64_MIN case has been handled.
---
 clpoly/number/ZZ.hh | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/clpoly/number/ZZ.hh b/clpoly/number/ZZ.hh
index 86fec03..f3f4f02 100644
--- a/clpoly/number/ZZ.hh
+++ b/clpoly/number/ZZ.hh
@@ -388,18 +388,18 @@ public:
             if (b._val >= 0)
                 mpz_add_ui(res._mpz, res._mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_sub_ui(res._mpz, res._mpz, static_cast<unsigned long>(-b._val));
+                mpz_sub_ui(res._mpz, res._mpz, -static_cast<unsigned long>(b._val));
         } else if (a._is_small()) {
             if (a._val >= 0)
                 mpz_add_ui(res._mpz, b._mpz, static_cast<unsigned long>(a._val));
             else {
-                mpz_sub_ui(res._mpz, b._mpz, static_cast<unsigned long>(-a._val));
+                mpz_sub_ui(res._mpz, b._mpz, -static_cast<unsigned long>(a._val));
             }
         } else if (b._is_small()) {
             if (b._val >= 0)
                 mpz_add_ui(res._mpz, a._mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_sub_ui(res._mpz, a._mpz, static_cast<unsigned long>(-b._val));
+                mpz_sub_ui(res._mpz, a._mpz, -static_cast<unsigned long>(b._val));
         } else {
             mpz_add(res._mpz, a._mpz, b._mpz);
         }
@@ -421,7 +421,7 @@ public:
             if (b._val >= 0)
                 mpz_sub_ui(res._mpz, res._mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_add_ui(res._mpz, res._mpz, static_cast<unsigned long>(-b._val));
+                mpz_add_ui(res._mpz, res._mpz, -static_cast<unsigned long>(b._val));
         } else if (a._is_small()) {
             _mpz_set_s64(res._mpz, a._val);
             mpz_sub(res._mpz, res._mpz, b._mpz);
@@ -429,7 +429,7 @@ public:
             if (b._val >= 0)
                 mpz_sub_ui(res._mpz, a._mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_add_ui(res._mpz, a._mpz, static_cast<unsigned long>(-b._val));
+                mpz_add_ui(res._mpz, a._mpz, -static_cast<unsigned long>(b._val));
         } else {
             mpz_sub(res._mpz, a._mpz, b._mpz);
         }
@@ -539,7 +539,7 @@ public:
             if (b._val >= 0)
                 mpz_add_ui(_mpz, _mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_sub_ui(_mpz, _mpz, static_cast<unsigned long>(-b._val));
+                mpz_sub_ui(_mpz, _mpz, -static_cast<unsigned long>(b._val));
         } else {
             mpz_add(_mpz, _mpz, b._mpz);
         }
@@ -560,7 +560,7 @@ public:
             if (b._val >= 0)
                 mpz_sub_ui(_mpz, _mpz, static_cast<unsigned long>(b._val));
             else
-                mpz_add_ui(_mpz, _mpz, static_cast<unsigned long>(-b._val));
+                mpz_add_ui(_mpz, _mpz, -static_cast<unsigned long>(b._val));
         } else {
             mpz_sub(_mpz, _mpz, b._mpz);
         }
@@ -695,7 +695,7 @@ public:
         if (_is_small()) {
             if (_val >= 0) return static_cast<uint64_t>(_val) % d;
             // negative: floor mod = d - ((-val) % d), but 0 if divides evenly
-            uint64_t r = static_cast<uint64_t>(-_val) % d;
+            uint64_t r = (-static_cast<uint64_t>(_val)) % d;
             return r == 0 ? 0 : d - r;
         }
         return mpz_fdiv_ui(_mpz, d);
@@ -705,7 +705,6 @@ public:
     size_t sizeinbase(int base) const {
         if (_is_small()) {
             if (_val == 0) return 1;
-            int64_t v = _val < 0 ? -_val : _val;
             // Special case: _val == INT64_MIN, -_val overflows
             if (_val == INT64_MIN) {
                 mpz_t tmp;
@@ -715,6 +714,7 @@ public:
                 mpz_clear(tmp);
                 return r;
             }
+            int64_t v = _val < 0 ? -_val : _val;
             size_t count = 0;
             while (v > 0) { v /= base; ++count; }
             return count;
@@ -922,12 +922,12 @@ inline ZZ pow(const ZZ& base, uint64_t exp) {
 inline ZZ gcd(const ZZ& a, const ZZ& b) {
     if (a._is_small() && b._is_small()) {
         // Simple GCD for small integers
-        int64_t x = a._val < 0 ? -a._val : a._val;
-        int64_t y = b._val < 0 ? -b._val : b._val;
         // Handle INT64_MIN
         if (a._val == INT64_MIN || b._val == INT64_MIN) {
             // fall through to mpz
         } else {
+            int64_t x = a._val < 0 ? -a._val : a._val;
+            int64_t y = b._val < 0 ? -b._val : b._val;
             while (y) { int64_t t = y; y = x % y; x = t; }
             return ZZ(x);
         }
-- 
2.43.0


From 621221e3de8e2547f911ce38da8b0dcbd01737ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 04/19] fix: reading a rational with a zero denominator throws
 std::domain_error

operator>> stored the parsed denominator without the zero check every
constructor makes, so "3/0" was accepted (and read back as 1/0).
---
 clpoly/number/QQ.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/clpoly/number/QQ.hh b/clpoly/number/QQ.hh
index e636b15..e532d19 100644
--- a/clpoly/number/QQ.hh
+++ b/clpoly/number/QQ.hh
@@ -166,9 +166,7 @@ public:
             q._num = ZZ(s);
             q._den = ZZ(1);
         } else {
-            q._num = ZZ(s.substr(0, pos));
-            q._den = ZZ(s.substr(pos + 1));
-            q._canonicalize();
+            q = QQ(ZZ(s.substr(0, pos)), ZZ(s.substr(pos + 1)));
         }
         return is;
     }
-- 
2.43.0


From cd5a7af2076186ae01b9df5d679fea91af27c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 05/19] fix: normalization keeps a zero coefficient when merged
 terms cancel

---
 clpoly/basic.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 7869414..3f84bc8 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -116,11 +116,16 @@ namespace clpoly{
                     t1->second+=t2->second;//add_assignment
                 else
                 {
-                    ++t1;
-                    ++tmp_size;
+                    if (!zore_check<T2>()(t1->second)) //otherwise the merged terms cancelled
+                    {
+                        ++t1;
+                        ++tmp_size;
+                    }
                     if (t1!=t2)
                         *t1=std::move(*t2);
                 }
+        if (zore_check<T2>()(t1->second))
+            --tmp_size;
         return tmp_size;
     }
     template <class T,class Tv,class compare>
-- 
2.43.0


From 47399722a610e5bf4c7cabb044435ff4672e2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 06/19] fix: division by a one-term polynomial stores zero
 quotient coefficients

---
 clpoly/basic.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 3f84bc8..d8c76e4 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -608,7 +608,8 @@ namespace clpoly{
                 if (is_divexact(m,i.first,v2_.begin()->first))
                 {
                     __div(k,i.second,v2_.begin()->second);
-                    new_v.push_back({std::move(m),std::move(k)});
+                    if (!zore_check<T2>()(k))
+                        new_v.push_back({std::move(m),std::move(k)});
                 }
             }
             return void();
-- 
2.43.0


From 522285d73f0a79d83ce0ae409506a47904b8dc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 07/19] fix: polynomial division puts the dividend coefficient
 instead of the remainder into R

---
 clpoly/basic.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index d8c76e4..f1091a0 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -828,7 +828,7 @@ namespace clpoly{
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
 
                     if(!zore_check<T2>()(k2)){
-                        R.push_back({std::move(m),std::move(k)});
+                        R.push_back({std::move(m),std::move(k2)});
                     }
                     //std::cout<<k<<" "<<v2_begin->second<<" "<<k1<<std::endl;    
                     if(!zore_check<T2>()(k1)){
-- 
2.43.0


From 28dfa5cd96f6ca3d7f9219d34fdab587c2e2d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 08/19] fix: adding a constant to a polynomial reads the last
 term of an empty one and stores zero coefficients

---
 clpoly/polynomial_.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index 3581379..d4cb2e8 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -179,8 +179,14 @@ namespace clpoly{
     template<class Tc>
     polynomial_<Tc> operator+ (polynomial_<Tc>  O,Tc  m)
     {
-        if (O.empty() || O.back().first.empty())
+        if (zore_check<Tc>()(m))
+            return O;
+        if (!O.empty() && O.back().first.empty())
+        {
             O.back().second+=m;
+            if (zore_check<Tc>()(O.back().second))
+                O.pop_back();
+        }
         else
             O.push_back({{},std::move(m)});
         return O;
-- 
2.43.0


From d5bd0afdbf2745a2df4e3d0f57ef2a94739140d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 09/19] fix: derivative modulo p stores zero coefficients

---
 clpoly/polynomial.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index 15a6b99..778d0ed 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -870,7 +870,9 @@ namespace clpoly{
             }
             if (b)
             {
-                Pout.push_back({std::move(m),b*i.second});
+                Tc c(b*i.second);
+                if (!zore_check<Tc>()(c))
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
@@ -892,7 +894,9 @@ namespace clpoly{
                 if (ptr->second-1)
                     m.push_back({x,ptr->second-1});
                 for (++ptr;ptr!=i.first.end();++ptr) m.push_back(*ptr);
-                Pout.push_back({std::move(m),i.first.front().second*i.second});
+                Tc c(i.first.front().second*i.second);
+                if (!zore_check<Tc>()(c))
+                    Pout.push_back({std::move(m),std::move(c)});
             }
             
         }
-- 
2.43.0


From e99af3bf23774bc889c0ba342b5f6173ca366737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 10/19] fix: packed multiplication overflows its exponent
 fields because the capacity test is attached to the wrong if

---
 clpoly/monomial_order.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index 2250c00..3bac292 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -221,8 +221,11 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
+        if (vars.size()>63) return false;
         if (delta)
+        {
             if (vars.size()>1 && std::max(v1_.begin()->first.deg(),v2_.begin()->first.deg())>=(uint64_t(1)<<(64/(vars.size()+1)-1))) return false;
+        }
         else
             if (vars.size()>1 && v1_.begin()->first.deg()+v2_.begin()->first.deg()>=(uint64_t(1)<<(64/(vars.size()+1)))) return false;
         return true;
@@ -443,8 +446,11 @@ namespace clpoly{
         vars.clear();
         __pair_vec_variables(v1_,vars);
         __pair_vec_variables(v2_,vars);
+        if (vars.size()>64) return false;
         if (delta)
+        {
             if (vars.size()>1  && std::max(deg1,deg2)>=(uint64_t(1)<<(64/vars.size()-1))) return false;
+        }
         else    
             if (vars.size()>1  && deg1+deg2>=(uint64_t(1)<<(64/vars.size()))) return false;
         return true;
-- 
2.43.0


From 927229fa1f2cdbc590efc52e621414bd1ad7925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 11/19] fix: packed division loses terms when an exponent
 outgrows its field

---
 clpoly/monomial.hh       | 21 +++++++++++++++++++--
 clpoly/monomial_order.hh |  1 +
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/clpoly/monomial.hh b/clpoly/monomial.hh
index e75569d..c58645a 100644
--- a/clpoly/monomial.hh
+++ b/clpoly/monomial.hh
@@ -366,7 +366,8 @@ namespace clpoly
         std::size_t i, j, s,i1;
         T2 k;
         T2 k1;
-        while (heap_size!=0 || v1_ptr!=v1_end)
+        uint64_t overflow=0; // an exponent of the dividend has outgrown its field
+        while (!overflow && (heap_size!=0 || v1_ptr!=v1_end))
         {
             if (v1_ptr!=v1_end && (heap_size==0 || !gcomp(heap[0]->mono,v1_ptr->first)))
             {
@@ -388,6 +389,7 @@ namespace clpoly
                     if (++(heap[0]->v1_ptr)!=new_v_c.end()){
                         lin[lin_size++]=heap[0];
                         heap[0]->mono=heap[0]->v1_ptr->first+heap[0]->v2_ptr->first;
+                        overflow|=heap[0]->mono & mold;
                         heap[0]=heap[0]->next;  
                     }
                     else{
@@ -417,6 +419,7 @@ namespace clpoly
                             --reset_h;
                             node[reset_h].v1_ptr=new_c_ptr;
                             node[reset_h].mono=new_c_ptr->first+node[reset_h].v2_ptr->first;
+                            overflow|=node[reset_h].mono & mold;
                             VHC_insert(heap,heap_size,node+reset_h,gcomp);
                         }
                     }
@@ -428,6 +431,11 @@ namespace clpoly
         delete [] heap;
         delete [] lin;
         delete [] node;
+        if (overflow)
+        {
+            new_v.clear();
+            return false;
+        }
         //std::cout<<"压缩乘法结束\n";
         return true;
     }
@@ -491,7 +499,8 @@ namespace clpoly
         T2 k;
         T2 k1;
         T2 k2;
-        while (heap_size!=0 || v1_ptr!=v1_end)
+        uint64_t overflow=0; // an exponent of the dividend has outgrown its field
+        while (!overflow && (heap_size!=0 || v1_ptr!=v1_end))
         {
             if (v1_ptr!=v1_end && (heap_size==0 || !gcomp(heap[0]->mono,v1_ptr->first)))
             {
@@ -513,6 +522,7 @@ namespace clpoly
                     if (++(heap[0]->v1_ptr)!=new_v_c.end()){
                         lin[lin_size++]=heap[0];
                         heap[0]->mono=heap[0]->v1_ptr->first+heap[0]->v2_ptr->first;
+                        overflow|=heap[0]->mono & mold;
                         heap[0]=heap[0]->next;  
                     }
                     else{
@@ -546,6 +556,7 @@ namespace clpoly
                             --reset_h;
                             node[reset_h].v1_ptr=new_c_ptr;
                             node[reset_h].mono=new_c_ptr->first+node[reset_h].v2_ptr->first;
+                            overflow|=node[reset_h].mono & mold;
                             VHC_insert(heap,heap_size,node+reset_h,gcomp);
                         }
                     }
@@ -561,6 +572,12 @@ namespace clpoly
         delete [] heap;
         delete [] lin;
         delete [] node;
+        if (overflow)
+        {
+            new_v.clear();
+            R.clear();
+            return false;
+        }
         //std::cout<<"压缩乘法结束\n";
         return true;
     }
diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index 3bac292..80b4740 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -288,6 +288,7 @@ namespace clpoly{
     template<class var_comp>
     inline uint64_t __monomial_compression_div_mold(const grlex_<var_comp>* m,size_t vars_size)
     {
+        if (vars_size<=1) return uint64_t(1)<<63; // one field
         unsigned int l=64/(vars_size+1);
         uint64_t mold=0;
         for (unsigned int i=0;i<=vars_size;++i)
-- 
2.43.0


From bbaabac253cc4671803fa1aec9e5a0100d1b68fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 12/19] fix: gcd wraps a product of two residues and never ends
 when a coefficient vanishes modulo the first prime

---
 clpoly/polynomial_gcd.cc | 4 ++--
 clpoly/polynomial_gcd.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clpoly/polynomial_gcd.cc b/clpoly/polynomial_gcd.cc
index 43f1ed6..101a274 100644
--- a/clpoly/polynomial_gcd.cc
+++ b/clpoly/polynomial_gcd.cc
@@ -265,7 +265,7 @@ namespace clpoly{
                         }
                         else
                         {
-                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pout_prime*Pm_ptr->second.number()*tmp_inv.number()});
                             
                         }
                         ++Pm_ptr;
@@ -279,7 +279,7 @@ namespace clpoly{
                 }
                 while (Pm_ptr!=Pm_end)
                 {
-                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pout_prime*Pm_ptr->second.number()*tmp_inv.number()});
                     ++Pm_ptr;
                 }
                 Pout_prime*=prime;
diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 3a6f63c..9778972 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -383,7 +383,7 @@ namespace clpoly{
                         }
                         else
                         {
-                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                            tmp_Pout_.push_back({std::move(Pm_ptr->first),Pout_prime*Pm_ptr->second.number()*tmp_inv.number()});
                             
                         }
                         ++Pm_ptr;
@@ -397,7 +397,7 @@ namespace clpoly{
                 }
                 while (Pm_ptr!=Pm_end)
                 {
-                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pm_ptr->second.number()*tmp_inv.number()*Pout_prime});
+                    tmp_Pout_.push_back({std::move(Pm_ptr->first),Pout_prime*Pm_ptr->second.number()*tmp_inv.number()});
                     ++Pm_ptr;
                 }
                 Pout_prime*=prime; 
-- 
2.43.0


From 4c89e3339f47ee3e9e6d6cdab1bb000a59892185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 13/19] fix: the zeroth power of an empty polynomial modulo p
 stores a zero coefficient with modulus 1

---
 clpoly/polynomial_.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/polynomial_.hh b/clpoly/polynomial_.hh
index d4cb2e8..1089e77 100644
--- a/clpoly/polynomial_.hh
+++ b/clpoly/polynomial_.hh
@@ -42,7 +42,7 @@ namespace clpoly{
         basic_polynomial<Tm,Tc,compare> o(p.comp_ptr());
         if (p.empty()) {
             if (i == 0) {
-                if constexpr (std::is_constructible_v<Tc, int>) {
+                if constexpr (std::is_constructible_v<Tc, int> && !std::is_same_v<Tc, Zp>) {
                     o.data().push_back(std::make_pair(Tm(), Tc(1)));
                 } else {
                     assert(false && "pow(empty polynomial, 0): no coefficient context");
-- 
2.43.0


From a1c3bdc7e23f3584816bbc53185b0edd9798c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 14/19] fix: is_normal reads the first term of an empty
 polynomial or monomial

---
 clpoly/basic.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index f1091a0..5163275 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -76,6 +76,8 @@ namespace clpoly{
     template <class T1,class T2,class compare>
     inline bool pair_vec_normal_check(const std::vector<std::pair<T1,T2>> & v,const compare & comp )
     {
+        if (v.empty())
+            return true;
         auto t2=v.begin();++t2;
         auto t1=v.begin();
         auto e=v.end();
-- 
2.43.0


From a62c85cf6e7fe0c12dfab86d084c68a250857e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:51 +0000
Subject: [PATCH 15/19] fix: packed exponents are shifted by the full word
 width

---
 clpoly/monomial_order.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clpoly/monomial_order.hh b/clpoly/monomial_order.hh
index 80b4740..12a7d0c 100644
--- a/clpoly/monomial_order.hh
+++ b/clpoly/monomial_order.hh
@@ -269,7 +269,7 @@ namespace clpoly{
         {
             unsigned int l=64/(vars.size()+1);
             unsigned int ll=l*vars.size();
-            uint64_t mod=(uint64_t(1)<<(l*(vars.size()+1)))-(uint64_t(1)<<ll);
+            uint64_t mod=((uint64_t(1)<<l)-1)<<ll; // l*(vars.size()+1) may be 64
             m.deg()=(mc & mod)>>ll;
             uint64_t part;
             for (auto &i:vars)
@@ -465,7 +465,7 @@ namespace clpoly{
         auto m_ptr=m.begin();
         for (auto &i:vars)
         {
-            mc<<=l;
+            if (l<64) mc<<=l; // one variable fills the word
             if (m_ptr!=m.end()  && i == m_ptr->first)
             {
                 mc+=m_ptr->second;
@@ -487,7 +487,7 @@ namespace clpoly{
         if (l==64)
             mod=-1;
         else
-            mod=(uint64_t(1)<<(l*(vars.size())))-(uint64_t(1)<<ll);
+            mod=((uint64_t(1)<<l)-1)<<ll; // l*vars.size() may be 64
         uint64_t deg;
         uint64_t part;
         for (auto &i:vars)
@@ -495,7 +495,7 @@ namespace clpoly{
             part=(mc & mod)>>ll;
             if (part!=0)
                 m.push_back({i,part});
-            mc<<=l;
+            if (l<64) mc<<=l;
           
         }
 
-- 
2.43.0


From 3c73acc398ff586cebf3aa067b87fd2b6b180299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 16/19] fix: prem, pquo, resultant, extended gcd and negation
 with an output that is also an input

---
 clpoly/basic.hh          |  5 +++++
 clpoly/polynomial.hh     | 30 ++++++++++++++++++++++++++++++
 clpoly/polynomial_gcd.hh |  5 +++++
 clpoly/resultant.hh      |  7 +++++++
 4 files changed, 47 insertions(+)

diff --git a/clpoly/basic.hh b/clpoly/basic.hh
index 5163275..9165036 100644
--- a/clpoly/basic.hh
+++ b/clpoly/basic.hh
@@ -153,6 +153,11 @@ namespace clpoly{
         std::vector<std::pair<T1,T2>> & new_T,
         const std::vector<std::pair<T1,T2>> & v1)
     {
+        if (&new_T==&v1)
+        {
+            pair_vec_negate(new_T);
+            return void();
+        }
         new_T.clear();
         new_T.reserve(v1.size());
         for (auto &&i:v1)
diff --git a/clpoly/polynomial.hh b/clpoly/polynomial.hh
index 778d0ed..177b7cc 100644
--- a/clpoly/polynomial.hh
+++ b/clpoly/polynomial.hh
@@ -409,6 +409,13 @@ namespace clpoly{
 //#endif            
             return void();
         }
+        if (&O==&G || &O==&F)
+        {
+            polynomial_<Tc,lex_<var_order>> O_(&comp);
+            prem(O_,G,F,v,is_L);
+            O=std::move(O_);
+            return void();
+        }
         O.comp(&comp);
         O.clear();
         if (is_number(F))
@@ -496,6 +503,15 @@ namespace clpoly{
 //#endif            
             return void();
         }
+        if (&Q==&G || &Q==&F || &R==&G || &R==&F)
+        {
+            polynomial_<Tc,lex_<var_order>> Q_(&comp);
+            polynomial_<Tc,lex_<var_order>> R_(&comp);
+            pquo(Q_,R_,G,F,v,is_L);
+            Q=std::move(Q_);
+            R=std::move(R_);
+            return void();
+        }
         std::vector<std::pair<basic_monomial<lex_<var_order>>,Tc>> tmp_G;
         std::vector<std::pair<basic_monomial<lex_<var_order>>,Tc>> tmp_G1;
         std::vector<std::pair<basic_monomial<lex_<var_order>>,Tc>> tmp_G2;
@@ -603,6 +619,13 @@ namespace clpoly{
 //#endif            
             return polynomial_<Tc,comp>();
         }
+        if (&R==&G || &R==&F)
+        {
+            polynomial_<Tc,comp> R_(G.comp_ptr());
+            polynomial_<Tc,comp> Q_=pquo(R_,G,F,v,is_L);
+            R=std::move(R_);
+            return Q_;
+        }
         polynomial_<Tc,comp> Q(G.comp_ptr());
         R.clear();
         R.comp(G.comp_ptr());
@@ -637,6 +660,13 @@ namespace clpoly{
 //#endif            
             return polynomial_<Tc,lex_<var_order>>();
         }
+        if (&R==&G || &R==&F)
+        {
+            polynomial_<Tc,lex_<var_order>> R_(G.comp_ptr());
+            polynomial_<Tc,lex_<var_order>> Q_=pquo(R_,G,F,v,is_L);
+            R=std::move(R_);
+            return Q_;
+        }
         polynomial_<Tc,lex_<var_order>> Q(G.comp_ptr());
         R.clear();
         R.comp(G.comp_ptr());
diff --git a/clpoly/polynomial_gcd.hh b/clpoly/polynomial_gcd.hh
index 9778972..87b1fa6 100644
--- a/clpoly/polynomial_gcd.hh
+++ b/clpoly/polynomial_gcd.hh
@@ -458,6 +458,11 @@ namespace clpoly{
         polynomial_<ZZ,lex_<var_order>>& t)
     {
         using Poly = polynomial_<ZZ,lex_<var_order>>;
+        if (&s == &F || &s == &G || &t == &F || &t == &G)
+        {
+            Poly F_(F), G_(G);
+            return polynomial_GCD(F_, G_, s, t);
+        }
         assert(comp_consistent(F.comp(), G.comp()));
         auto comp_ptr = F.comp_ptr();
 
diff --git a/clpoly/resultant.hh b/clpoly/resultant.hh
index f9b9dd3..ee7efe2 100644
--- a/clpoly/resultant.hh
+++ b/clpoly/resultant.hh
@@ -40,6 +40,13 @@ namespace clpoly{
             variable v
         )
     {
+        if (&O==&F || &O==&G)
+        {
+            polynomial_<Tc,univariate_priority_order> O_(G.comp_ptr());
+            resultant(O_,F,G,v);
+            O=std::move(O_);
+            return void();
+        }
         O.clear();
         const univariate_priority_order &comp=G.comp();
        
-- 
2.43.0


From 6b71c2224ca4686adeb6c8313da178c93e5619fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:55 +0000
Subject: [PATCH 17/19] fix: graph::add_node enters the node in the index
 before moving it away

---
 clpoly/associatedgraph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index 04ca071..166d208 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -64,8 +64,8 @@ namespace clpoly{
                 auto search=this->__mnode.find(c);
                 if (search==this->__mnode.end())
                 {
+                    this->__mnode[c]=this->__nodes.size();
                     this->__nodes.push_back(std::move(c));
-                    this->__mnode[c]=this->__nodes.size()-1;
                     this->__adjacency_list.push_back({});
                 }
             }
-- 
2.43.0


From f135e69b9621ae62d8d6bd7de336e8b31b381fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 18/19] fix: graph::add_edge with a new node and a reference to
 one of its own nodes

---
 clpoly/associatedgraph.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clpoly/associatedgraph.hh b/clpoly/associatedgraph.hh
index 166d208..bbf065f 100644
--- a/clpoly/associatedgraph.hh
+++ b/clpoly/associatedgraph.hh
@@ -76,8 +76,9 @@ namespace clpoly{
                 auto search=this->__mnode.find(a);
                 if (search==this->__mnode.end())
                 {
-                    this->add_node(a);
-                    na=this->size()-1;
+                    const node_type a_(a),b_(b); // they may refer to our own nodes
+                    this->add_node(a_);
+                    return this->add_edge(a_,b_,directed);
                 }
                 else{
                     na=search->second;
-- 
2.43.0


From 53f021ce4156762bf2e4e6fc3614a45073160a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 19/19] fix: wrsd removes the last element instead of erasing
 at end()

---
 clpoly/charset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clpoly/charset.hh b/clpoly/charset.hh
index add38c1..554a9ee 100644
--- a/clpoly/charset.hh
+++ b/clpoly/charset.hh
@@ -246,7 +246,7 @@ namespace clpoly{
                     auto q=pquo(T[n-1],regularsubreschain[i],x);
                     if(degree(q,x)>0)
                     {
-                        g.erase(g.end());
+                        g.pop_back();
                         g.push_back(q);
                         W=wrsd(g,f);
                         G.insert(G.end(),W.second.begin(),W.second.end());
-- 
2.43.0

