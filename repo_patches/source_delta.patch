From b1967172972f93c25a4f503c18f80fa60b37b023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:19 +0000
Subject: [PATCH 01/37] fix: mpFp_sqrt: square repeatedly instead of shifting
 an int by up to 2-adicity of p-1 (endless loop for secp224r1)

---
 src/field.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/field.c b/src/field.c
index 189ee77..3ea664b 100644
--- a/src/field.c
+++ b/src/field.c
@@ -735,7 +735,11 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
                 mpz_powm_ui(z, z, 2, op->fp->p);
                 //mpz_add_ui(i, i, 1); 
             }
-            mpz_powm_ui(b, c, 1 << (m - i - 1), op->fp->p);
+            // b = c ^ (2 ^ (m - i - 1)), the exponent may exceed any machine word
+            mpz_set(b, c);
+            for (m = m - i - 1; m > 0; m--) {
+                mpz_powm_ui(b, b, 2, op->fp->p);
+            }
             mpz_mul(r, r, b);
             mpz_mod(r, r, op->fp->p);
             mpz_powm_ui(c, b, 2, op->fp->p);
-- 
2.43.0


From 8b31c3f95e072bd0a4e084feb161762369d2f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:30 +0000
Subject: [PATCH 02/37] fix: mpECP_add: short Weierstrass sum when the
 difference of the operands has order two was reported neutral

---
 src/ecpoint.c | 65 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 62 insertions(+), 3 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 01b6b6e..614692f 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -777,6 +777,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 // 2015 Renes-Costello-Batina "Algorithm 1"
                 // from https://eprint.iacr.org/2015/1060.pdf
                 mpFp_t t0, t1, t2, t3, t4, t5, b3;
+                // copies of the operands (rpt may alias either of them), needed if
+                // the formula turns out not to apply, see below
+                mpFp_t x1, y1, z1, x2, y2, z2;
 #ifdef _MPECP_MPFP_NOMALLOC
                 __local_limb_t lt0, lt1, lt2, lt3, lt4, lt5, lb3;
                 t0->i->_mp_d = lt0; t0->i->_mp_size = 0; t0->i->_mp_alloc = _MPFP_MAX_LIMBS; t0->fp = pt1->cvp->fp;
@@ -786,6 +789,13 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 t4->i->_mp_d = lt4; t4->i->_mp_size = 0; t4->i->_mp_alloc = _MPFP_MAX_LIMBS; t4->fp = pt1->cvp->fp;
                 t5->i->_mp_d = lt5; t5->i->_mp_size = 0; t5->i->_mp_alloc = _MPFP_MAX_LIMBS; t5->fp = pt1->cvp->fp;
                 b3->i->_mp_d = lb3; b3->i->_mp_size = 0; b3->i->_mp_alloc = _MPFP_MAX_LIMBS; b3->fp = pt1->cvp->fp;
+                __local_limb_t lx1, ly1, lz1, lx2, ly2, lz2;
+                x1->i->_mp_d = lx1; x1->i->_mp_size = 0; x1->i->_mp_alloc = _MPFP_MAX_LIMBS; x1->fp = pt1->cvp->fp;
+                y1->i->_mp_d = ly1; y1->i->_mp_size = 0; y1->i->_mp_alloc = _MPFP_MAX_LIMBS; y1->fp = pt1->cvp->fp;
+                z1->i->_mp_d = lz1; z1->i->_mp_size = 0; z1->i->_mp_alloc = _MPFP_MAX_LIMBS; z1->fp = pt1->cvp->fp;
+                x2->i->_mp_d = lx2; x2->i->_mp_size = 0; x2->i->_mp_alloc = _MPFP_MAX_LIMBS; x2->fp = pt1->cvp->fp;
+                y2->i->_mp_d = ly2; y2->i->_mp_size = 0; y2->i->_mp_alloc = _MPFP_MAX_LIMBS; y2->fp = pt1->cvp->fp;
+                z2->i->_mp_d = lz2; z2->i->_mp_size = 0; z2->i->_mp_alloc = _MPFP_MAX_LIMBS; z2->fp = pt1->cvp->fp;
 #else
                 mpFp_init_fp(t0, pt1->cvp->fp);
                 mpFp_init_fp(t1, pt1->cvp->fp);
@@ -794,7 +804,19 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_init_fp(t4, pt1->cvp->fp);
                 mpFp_init_fp(t5, pt1->cvp->fp);
                 mpFp_init_fp(b3, pt1->cvp->fp);
+                mpFp_init_fp(x1, pt1->cvp->fp);
+                mpFp_init_fp(y1, pt1->cvp->fp);
+                mpFp_init_fp(z1, pt1->cvp->fp);
+                mpFp_init_fp(x2, pt1->cvp->fp);
+                mpFp_init_fp(y2, pt1->cvp->fp);
+                mpFp_init_fp(z2, pt1->cvp->fp);
 #endif
+                mpFp_set(x1, pt1->x);
+                mpFp_set(y1, pt1->y);
+                mpFp_set(z1, pt1->z);
+                mpFp_set(x2, pt2->x);
+                mpFp_set(y2, pt2->y);
+                mpFp_set(z2, pt2->z);
                 // TODO: Precalculate b3 and store in coeff.ws.b3
                 mpFp_add(b3, bb, bb);
                 mpFp_add(b3, b3, bb);
@@ -923,13 +945,50 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
 
                 rpt->cvp = pt1->cvp;
 
+                rpt->is_neutral = 0;
                 if (mpFp_cmp_ui(rpt->z, 0) == 0) {
-                    mpECP_set_neutral(rpt, pt1->cvp);
-                } else {
-                    rpt->is_neutral = 0;
+                    // Z3 == 0 if pt1 == -pt2, but also if (pt1 - pt2) is a point
+                    // of order two. In the latter case the x coordinates differ
+                    // and the sum is the third point on the chord:
+                    // u = Y2*Z1-Y1*Z2, v = X2*Z1-X1*Z2
+                    // A = u**2*Z1*Z2-v**3-2*v**2*X1*Z2
+                    // X3 = v*A, Y3 = u*(v**2*X1*Z2-A)-v**3*Y1*Z2, Z3 = v**3*Z1*Z2
+                    mpFp_mul(t0, x1, z2);
+                    mpFp_mul(t1, x2, z1);
+                    mpFp_sub(t1, t1, t0);
+                    if (mpFp_cmp_ui(t1, 0) == 0) {
+                        mpECP_set_neutral(rpt, pt1->cvp);
+                    } else {
+                        mpFp_mul(t2, y1, z2);
+                        mpFp_mul(t3, y2, z1);
+                        mpFp_sub(t3, t3, t2);
+                        mpFp_mul(t4, z1, z2);
+                        // t0 = v**2*X1*Z2, t2 = v**3*Y1*Z2, t5 = v**3
+                        mpFp_sqr(t5, t1);
+                        mpFp_mul(t0, t0, t5);
+                        mpFp_mul(t5, t5, t1);
+                        mpFp_mul(t2, t2, t5);
+                        mpFp_mul(rpt->z, t5, t4);
+                        // b3 = A
+                        mpFp_sqr(b3, t3);
+                        mpFp_mul(b3, b3, t4);
+                        mpFp_sub(b3, b3, t5);
+                        mpFp_sub(b3, b3, t0);
+                        mpFp_sub(b3, b3, t0);
+                        mpFp_mul(rpt->x, t1, b3);
+                        mpFp_sub(t0, t0, b3);
+                        mpFp_mul(t0, t0, t3);
+                        mpFp_sub(rpt->y, t0, t2);
+                    }
                 }
 
 #ifndef _MPECP_MPFP_NOMALLOC
+                mpFp_clear(z2);
+                mpFp_clear(y2);
+                mpFp_clear(x2);
+                mpFp_clear(z1);
+                mpFp_clear(y1);
+                mpFp_clear(x1);
                 mpFp_clear(b3);
                 mpFp_clear(t5);
                 mpFp_clear(t4);
-- 
2.43.0


From 3e095c7e558ee841f07fb15e1b16527f3cea9922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:11 +0000
Subject: [PATCH 03/37] fix: mpECP_add: refer to the operand's curve instead of
 overwriting the contents of the curve the result was on (Edwards types)

---
 src/ecpoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 614692f..704ecfd 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -1163,7 +1163,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 // Z3 = c*F*G
                 mpFp_mul(B, pt1->cvp->coeff.ed.c, G);
                 mpFp_mul(rpt->z, B, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
@@ -1242,7 +1242,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_mul(rpt->y, B, A);
                 // Z3 = F*G
                 mpFp_mul(rpt->z, G, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
-- 
2.43.0


From 61705a25cfa830c9859bd306f31d16051edc4250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:36 +0000
Subject: [PATCH 04/37] fix: Montgomery points on curves with B != 1: the map
 to the internal form is u = (x + A/3)/B, the inverse of x = Bu - A/3

---
 src/ecpoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 704ecfd..b2ba128 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -120,9 +120,9 @@ void mpECP_set(mpECP_t rpt, mpECP_t pt) {
 
 static inline void _transform_mo_to_ws(mpECP_t pt) {
     assert (pt->cvp->type == EQTypeMontgomery);
-    // u = x/B + A/3, v = y/B
-    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
+    // u = (x + A/3)/B, v = y/B
     mpFp_add(pt->x, pt->x, pt->cvp->coeff.mo.Adiv3);
+    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
     mpFp_mul(pt->y, pt->y, pt->cvp->coeff.mo.Binv);
 }
 
-- 
2.43.0


From 7d9919ae605b81adb6e9e91afc7b981a06698983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 05/37] fix: mpECurve_cmp: curves over different fields were
 reported equal

---
 src/ecurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index 1404b4f..d009d77 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -1195,7 +1195,7 @@ int mpECurve_cmp(mpECurve_t op1, mpECurve_t op2) {
     //printf("not the same pointer\n");
     if (op1->type != op2->type) return -1;
     //printf("same type\n");
-    r = (op1->fp == op2->fp) ; if (r != 1) return r;
+    if (op1->fp != op2->fp) return -1;
     //printf("same field\n");
     switch (op1->type) {
         case EQTypeShortWeierstrass:
-- 
2.43.0


From 9c5b52458d0045f40e4f8cc4ecd87cac147d2997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:43 +0000
Subject: [PATCH 06/37] fix: mpECurve_set_*_mo: B = 0 was accepted, leaving 1/B
 uninitialised

---
 src/ecurve.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index d009d77..ed31195 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -984,7 +984,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
 
 int mpECurve_set_mpz_mo(mpECurve_t cv, mpz_t p, mpz_t B, mpz_t A, mpz_t n,
 mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
-    int status;
+    int status, error;
     mpFp_field_ptr fp;
 
     fp = _mpFp_field_lookup(p);
@@ -1013,7 +1013,9 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
         mpFp_set_ui_fp(t, 3, cv->fp);
         mpFp_inv(t, t);
         mpFp_mul(cv->coeff.mo.Adiv3, cv->coeff.mo.A, t);
-        mpFp_inv(cv->coeff.mo.Binv, cv->coeff.mo.B);
+        // B = 0 has no inverse, and is not a Montgomery curve
+        error = mpFp_inv(cv->coeff.mo.Binv, cv->coeff.mo.B);
+        if (error != 0) mpFp_set_ui_fp(cv->coeff.mo.Binv, 0, cv->fp);
         // calculate short Weierstrass curve coefficients
         // ws_a
         mpFp_mul(b, cv->coeff.mo.B, cv->coeff.mo.B);
@@ -1042,7 +1044,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     mpz_set(cv->G[0], Gx);
     mpz_set(cv->G[1], Gy);
     cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
+    status = (error != 0) || (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
     return status;
 }
 
-- 
2.43.0


From 428fe794b4d3b857a95aed020ec868ae94189850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 07/37] fix: scalar multiplication: use the bit length of the
 order, which can exceed that of the field (secp160k1/r1/r2, secp224k1)

---
 src/ecpoint.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index b2ba128..ced47c0 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -56,7 +56,8 @@ typedef mp_limb_t __local_limb_t[_MPFP_MAX_LIMBS];
 static char *_hexlut = "0123456789ABCDEF";
 
 static inline int _mpECP_n_base_pt_levels(mpECP_t pt) {
-    return (pt->cvp->bits + pt->base_bits - 1) / pt->base_bits;
+    // scalars are modulo n, which can be one bit longer than the field
+    return (mpz_sizeinbase(pt->cvp->n, 2) + pt->base_bits - 1) / pt->base_bits;
 }
 
 static inline int _mpECP_n_base_pt_level_size(mpECP_t pt) {
@@ -1391,7 +1392,8 @@ void mpECP_scalar_mul(mpECP_t rpt, mpECP_t pt, mpFp_t sc) {
     mpECP_set(R1, pt);
     // scalar should be modulo the order of the curve
     assert(mpz_cmp(sc->fp->p, pt->cvp->n) == 0);
-    for (i = pt->cvp->bits - 1; i >= 0 ; i--) {
+    // the order n can be one bit longer than the field
+    for (i = mpz_sizeinbase(pt->cvp->n, 2) - 1; i >= 0 ; i--) {
         int b;
 
         b = mpFp_tstbit(sc, i);
-- 
2.43.0


From f6fdb34f0cd952d477aea0aec38a93cfe0294b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 08/37] fix: mpECP_set_bytes: accept only encodings of curve
 points (off-curve or unreduced coordinates, garbage after a zero prefix,
 undefined roots were accepted)

---
 src/ecpoint.c | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index ced47c0..f52d1d5 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -336,19 +336,32 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
     bytes = _bytelen(cv->bits);
     if (blen < (1 + bytes)) return -1;
     switch (b[0]) {
-        case 0:
-            mpECP_set_neutral(rpt, cv);
+        case 0: {
+                // neutral element is exported as all zeros, at the length of
+                // the compressed or uncompressed form
+                size_t i;
+                if ((blen != (1 + bytes)) && (blen != (1 + (2 * bytes)))) return -1;
+                for (i = 1; i < blen; i++) {
+                    if (b[i] != 0) return -1;
+                }
+                mpECP_set_neutral(rpt, cv);
+            }
             return 0;
         case 4: {
+                int valid;
                 if (blen != (1 + (2 * bytes))) return -1;
                 mpz_t x, y;
                 mpz_init(x);
                 mpz_init(y);
                 mpz_import(x, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1]));
                 mpz_import(y, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1 + bytes]));
-                mpECP_set_mpz(rpt, x, y, cv);
+                // coordinates must be field elements and satisfy the curve equation
+                valid = (mpz_cmp(x, cv->fp->p) < 0) && (mpz_cmp(y, cv->fp->p) < 0) &&
+                    (mpECurve_point_check(cv, x, y) != 0);
+                if (valid) mpECP_set_mpz(rpt, x, y, cv);
                 mpz_clear(y);
                 mpz_clear(x);
+                if (!valid) return -1;
             }
             return 0;
         case 2:
@@ -362,6 +375,14 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                 mpFp_init_fp(y, cv->fp);
                 mpFp_init_fp(t, cv->fp);
                 mpz_import(xz, bytes, 1, sizeof(unsigned char), 1, 0, &b[1]);
+                if (mpz_cmp(xz, cv->fp->p) >= 0) {
+                    // not a field element
+                    mpFp_clear(t);
+                    mpFp_clear(y);
+                    mpFp_clear(x);
+                    mpz_clear(xz);
+                    return -1;
+                }
                 mpFp_set_mpz_fp(x, xz, cv->fp);
                 switch (cv->type) {
                     case EQTypeShortWeierstrass: {
@@ -394,9 +415,9 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                             mpFp_set_ui_fp(y, 1, cv->fp);
                             mpFp_sub(t, y, t);
                             mpFp_sub(y, c2, x2);
-                            mpFp_inv(t, t);
+                            error = mpFp_inv(t, t);
                             mpFp_mul(t, t, y);
-                            error = mpFp_sqrt(y, t);
+                            if (error == 0) error = mpFp_sqrt(y, t);
                             mpFp_clear(x2);
                             mpFp_clear(c2);
                             if (error != 0) {
@@ -423,9 +444,9 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                             mpFp_sub(t, y, t);
                             mpFp_mul(x2, x2, a);
                             mpFp_sub(y, y, x2);
-                            mpFp_inv(t, t);
+                            error = mpFp_inv(t, t);
                             mpFp_mul(t, t, y);
-                            error = mpFp_sqrt(y, t);
+                            if (error == 0) error = mpFp_sqrt(y, t);
                             mpFp_clear(x2);
                             mpFp_clear(a);
                             if (error != 0) {
@@ -466,6 +487,14 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                 odd = mpz_tstbit(y->i, 0);
                 // '3' implies odd, '2' even... negate if not matched
                 if ((b[0] & 0x01) != odd) {
+                    if (mpFp_cmp_ui(y, 0) == 0) {
+                        // zero is its own negative, there is no odd root
+                        mpFp_clear(t);
+                        mpFp_clear(y);
+                        mpFp_clear(x);
+                        mpz_clear(xz);
+                        return -1;
+                    }
                     mpFp_neg(y, y);
                 }
                 mpECP_set_mpFp(rpt, x, y, cv);
-- 
2.43.0


From 53d6ce4aa5ba499e03e34ce653d0e6a934605042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 09/37] fix: mpECP_out_bytes: compressed Montgomery points
 carry the parity of the Montgomery y coordinate, as the import expects

---
 src/ecpoint.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index f52d1d5..5c40a59 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -571,7 +571,16 @@ void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
     if (compress != 0) {
         mpz_t odd;
         mpz_init(odd);
-        mpz_set_mpFp(odd, pt->y);
+        if (pt->cvp->type == EQTypeMontgomery) {
+            // parity of the y coordinate of the Montgomery form, as for import
+            mpFp_t y;
+            mpFp_init_fp(y, pt->cvp->fp);
+            _transform_ws_to_mo_y(y, pt);
+            mpz_set_mpFp(odd, y);
+            mpFp_clear(y);
+        } else {
+            mpz_set_mpFp(odd, pt->y);
+        }
         mpz_mod_ui(odd, odd, 2);
         if (mpz_cmp_ui(odd, 1) == 0) {
             s[0] = 3;
-- 
2.43.0


From de20e8dd3fe77067b72013b14c041d1264bae7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 10/37] fix: mpECP_set_str: refuse characters that are not
 hexadecimal digits

---
 src/ecpoint.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 5c40a59..6c014f8 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -29,6 +29,7 @@
 //OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <assert.h>
+#include <ctype.h>
 #include <ecc/ecpoint.h>
 #include <ecc/ecurve.h>
 #include <ecc/field.h>
@@ -316,15 +317,14 @@ int mpECP_set_str(mpECP_t rpt, char *s, mpECurve_t cv) {
 
     for (i = 0; i < blen; i++) {
         unsigned int btmp;
+        if (!isxdigit((unsigned char)s[2 * i]) || !isxdigit((unsigned char)s[(2 * i) + 1])) {
+            free(buf);
+            return -1;
+        }
         sscanf(&s[2 * i], "%2X", &btmp);
-        // btmp is unsigned, always >= 0
-        //assert(btmp >= 0);
-        assert(btmp < 256);
         buf[i] = (unsigned char)btmp;
-        //printf("%02X", buf[i]);
     }
-    //printf("\n");
-    
+
     status = mpECP_set_bytes(rpt, buf, blen, cv);
     free(buf);
     return status;
-- 
2.43.0


From ed2424d8de12cd23972367bc70ef76ccd3d7afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 11/37] fix: mpECDSASignature_init_Sign: keep the digest for
 the retry after s = 0 (it was overwritten by 1/k)

---
 src/ecdsa.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 95f9b96..63811c0 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -122,9 +122,10 @@ new_random:
     mpFp_set_mpz(r_n, r, sscheme->cvp->n);
     mpFp_mul(s_n, r_n, sK);
     mpFp_add(s_n, s_n, e_n);
-    status = mpFp_inv(e_n, k_n);
+    // invert in place, e_n is still needed if s turns out to be zero
+    status = mpFp_inv(k_n, k_n);
     if (status != 0) goto new_random;
-    mpFp_mul(s_n, s_n, e_n);
+    mpFp_mul(s_n, s_n, k_n);
     if (__GMP_UNLIKELY(mpFp_cmp_ui(s_n, 0) == 0)) goto new_random;
 
     mpFp_init(sig->r, sscheme->cvp->n);
-- 
2.43.0


From 34c7a839e47cef1d4b3b03b8f44d3a888b87a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 12/37] fix: mpECDSASignature_init_Sign: retry when r is zero
 modulo the order, not only when the x coordinate is zero

---
 src/ecdsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 63811c0..a44f982 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -117,9 +117,9 @@ new_random:
 
     mpECP_scalar_base_mul(R, sscheme->cv_G, k_n);
     mpz_set_mpECP_affine_x(r, R);
-    if (__GMP_UNLIKELY(mpz_cmp_ui(r, 0) == 0)) goto new_random;
-
     mpFp_set_mpz(r_n, r, sscheme->cvp->n);
+    if (__GMP_UNLIKELY(mpFp_cmp_ui(r_n, 0) == 0)) goto new_random;
+
     mpFp_mul(s_n, r_n, sK);
     mpFp_add(s_n, s_n, e_n);
     // invert in place, e_n is still needed if s turns out to be zero
-- 
2.43.0


From d2a0f3ec3d544d46685e7b5c65958047239b96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 13/37] fix: ECDSA: take the leftmost bits of the digest, as
 many as the order has (FIPS 186), not whole bytes

---
 src/ecdsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index a44f982..e7fc02b 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -106,6 +106,8 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
     sscheme->H->dohash(hash, msg, sz);
     if (sscheme->nsz <= sscheme->H->hsz) {
         mpz_import(e, sscheme->nsz, 1, 1, 1, 0, hash);
+        // only the leftmost bits of the digest, as many as the order has
+        mpz_tdiv_q_2exp(e, e, (sscheme->nsz << 3) - mpz_sizeinbase(sscheme->cvp->n, 2));
     } else {
         mpz_import(e, sscheme->H->hsz, 1, 1, 1, 0, hash);
     }
@@ -185,6 +187,8 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     sig->sscheme->H->dohash(hash, msg, sz);
     if (sig->sscheme->nsz <= sig->sscheme->H->hsz) {
         mpz_import(e, sig->sscheme->nsz, 1, 1, 1, 0, hash);
+        // only the leftmost bits of the digest, as many as the order has
+        mpz_tdiv_q_2exp(e, e, (sig->sscheme->nsz << 3) - mpz_sizeinbase(sig->sscheme->cvp->n, 2));
     } else {
         mpz_import(e, sig->sscheme->H->hsz, 1, 1, 1, 0, hash);
     }
-- 
2.43.0


From abb57c02b5431a3f420ee074d3dbf452d93a712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 14/37] fix: mpECDSASignature_verify_cmp: reject when the
 combined point is neutral (accepted on Montgomery curves for r = -A/3)

---
 src/ecdsa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index e7fc02b..65129e2 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -203,7 +203,8 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     mpz_set_mpECP_affine_x(e, P);
     mpFp_set_mpz(p_n, e, sig->sscheme->cvp->n);
 
-    status = mpFp_cmp(p_n, sig->r);
+    // the neutral element has no x coordinate to compare
+    status = (P->is_neutral != 0) ? -1 : mpFp_cmp(p_n, sig->r);
 
     mpECP_clear(Pq);
     mpECP_clear(P);
-- 
2.43.0


From fcfd7c0f663c006787cbffa1cedd79ad431d02f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 15/37] fix: mpECDSASignature_init_import_str: refuse
 characters that are not hexadecimal digits

---
 src/ecdsa.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 65129e2..7774da1 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -29,6 +29,7 @@
 //OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <assert.h>
+#include <ctype.h>
 #include <ecc/ecdsa.h>
 #include <ecc/ecpoint.h>
 #include <ecc/ecurve.h>
@@ -342,7 +343,11 @@ int mpECDSASignature_init_import_str(mpECDSASignature_t sig, mpECDSASignatureSch
     bbytes = (unsigned char *)malloc(bsz * sizeof(char));
     for (i = 0; i < bsz; i++) {
         int iread;
-        iread = sscanf(&ssig[i<<1], "%02hhX", &bbytes[i]);
+        // sscanf would also take blanks, signs and single digits
+        iread = 0;
+        if (isxdigit((unsigned char)ssig[i<<1]) && isxdigit((unsigned char)ssig[(i<<1)+1])) {
+            iread = sscanf(&ssig[i<<1], "%02hhX", &bbytes[i]);
+        }
         if (iread != 1) {
             memset(bbytes, 0, bsz);
             free(bbytes);
-- 
2.43.0


From 0fb1764a26249456231427a5bb9d9f89723be2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 16/37] fix: cleaned memory: clear the tail on shrinking and
 keep the compiler from dropping the clearing before release

---
 src/safememory.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/safememory.c b/src/safememory.c
index 0770740..982c2be 100644
--- a/src/safememory.c
+++ b/src/safememory.c
@@ -34,10 +34,22 @@
 #include <string.h>
 #include <stdlib.h>
 
+// the volatile access keeps the compiler from dropping the writes as dead
+// stores when the block is released right afterwards
+static void _safe_clean(void *ptr, size_t sz) {
+    volatile unsigned char *p = (volatile unsigned char *)ptr;
+
+    while (sz > 0) {
+        p[--sz] = 0;
+    }
+}
+
 void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     void *ret;
 
     if (__GMP_LIKELY(newsz <= oldsz)) {
+        // the tail no longer counts towards the size given on release
+        _safe_clean((unsigned char *)old + newsz, oldsz - newsz);
         return old;
     }
 
@@ -48,14 +60,14 @@ void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     }
 
     memcpy(ret, old, oldsz);
-    memset(old, 0, oldsz);
+    _safe_clean(old, oldsz);
     free(old);
 
     return ret;
 }
 
 void _safe_clean_free(void *old, size_t oldsz) {
-    memset(old, 0, oldsz);
+    _safe_clean(old, oldsz);
     free (old);
 }
 
-- 
2.43.0


From eed1da1f055600696eda1b28d542a56e0e85def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 17/37] fix: mpz_urandom: the range may be given as the result
 variable (gave 0 or a division by zero)

---
 src/mpzurandom.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 23eec45..9ed8546 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -47,6 +47,7 @@ static void _close_f_urandom(void) {
 void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     int bytes, sz_read;
     char *buffer;
+    mpz_t r;
     if (_f_urandom == NULL) {
         _f_urandom = fopen("/dev/urandom", "rb");
         assert(_f_urandom != NULL);
@@ -57,8 +58,11 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     buffer = (char *)malloc((bytes) * sizeof(char));
     sz_read = fread(buffer, sizeof(char), bytes, _f_urandom);
     assert(sz_read == bytes);
-    mpz_import(rop, sz_read, 1, sizeof(char), 0, 0, buffer);
-    mpz_mod(rop, rop, rand_max);
+    // rop may be the same variable as rand_max
+    mpz_init(r);
+    mpz_import(r, sz_read, 1, sizeof(char), 0, 0, buffer);
+    mpz_mod(rop, r, rand_max);
+    mpz_clear(r);
     free(buffer);
     return;
 }
-- 
2.43.0


From e291f853caee8237a7e2c1e0deebd4e1f8d67c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 18/37] fix: Python: integers of 2048 to 2055 bits overflowed
 the conversion buffer by a byte

---
 python/pygmplong.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pygmplong.c b/python/pygmplong.c
index b342e65..fc3218c 100644
--- a/python/pygmplong.c
+++ b/python/pygmplong.c
@@ -53,7 +53,7 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 	//printf("psz = %d\n", psz);
 	psz >>= 3;
 
-	if (psz > sizeof(pdata)) {
+	if (psz >= sizeof(pdata)) {
 		return -1;
 	}
 	
@@ -113,7 +113,7 @@ int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
 	psz = _PyLong_NumBits((PyObject*)pobj);
 	psz >>= 3;
 
-	if (psz > sizeof(pdata)) {
+	if (psz >= sizeof(pdata)) {
 		return -1;
 	}
 
-- 
2.43.0


From 686e50955b982c33f84209bc31122c6d461a7619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 19/37] fix: Python: FieldElement operators and comparison with
 integers beyond the conversion limit (taken as 0, abort)

---
 python/pyfield.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index 4e0ad91..9c721e3 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -142,7 +142,12 @@ static PyObject *FieldElement_op_add_pylong(FieldElement *op1, PyLongObject *op2
 	mpz_init(op2z);
 	mpFp_init_fp(op2f, op1->fe->fp);
 
-	_pylong_to_mpz(op2, op2z);
+	if (_pylong_to_mpz(op2, op2z) != 0) {
+		PyErr_SetString(PyExc_ValueError, "integer operand too large");
+		mpFp_clear(op2f);
+		mpz_clear(op2z);
+		return NULL;
+	}
 	mpFp_set_mpz_fp(op2f, op2z, op1->fe->fp);
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
@@ -199,7 +204,12 @@ static PyObject *FieldElement_op_sub_pylong(FieldElement *op1, PyLongObject *op2
 	mpz_init(op2z);
 	mpFp_init_fp(op2f, op1->fe->fp);
 
-	_pylong_to_mpz(op2, op2z);
+	if (_pylong_to_mpz(op2, op2z) != 0) {
+		PyErr_SetString(PyExc_ValueError, "integer operand too large");
+		mpFp_clear(op2f);
+		mpz_clear(op2z);
+		return NULL;
+	}
 	mpFp_set_mpz_fp(op2f, op2z, op1->fe->fp);
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
@@ -266,7 +276,12 @@ static PyObject *FieldElement_op_mul_pylong(FieldElement *op1, PyLongObject *op2
 	mpz_init(op2z);
 	mpFp_init_fp(op2f, op1->fe->fp);
 
-	_pylong_to_mpz(op2, op2z);
+	if (_pylong_to_mpz(op2, op2z) != 0) {
+		PyErr_SetString(PyExc_ValueError, "integer operand too large");
+		mpFp_clear(op2f);
+		mpz_clear(op2z);
+		return NULL;
+	}
 	mpFp_set_mpz_fp(op2f, op2z, op1->fe->fp);
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
@@ -404,10 +419,13 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 		
 		mpz_init(bmpz);
 		status = _pylong_to_mpz((PyLongObject *)b, bmpz);
-		assert(status == 0);
 		if (status != 0) {
-			PyErr_SetString(PyExc_TypeError, "Error converting integer to mpz_t");
-			return NULL;
+			// larger than any element
+			mpz_clear(bmpz);
+			if ((op != Py_EQ) && (op != Py_NE)) {
+				Py_RETURN_NOTIMPLEMENTED;
+			}
+			return PyBool_FromLong(op == Py_NE);
 		}
 		switch (op) {
 		case Py_EQ:
-- 
2.43.0


From 3b14cb6f49400335d993e095abb41f2b80209cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 20/37] fix: Python: subtracting a FieldElement from an object
 that is no number (NULL call)

---
 python/pyfield.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index 9c721e3..d7d27ad 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -232,9 +232,16 @@ static PyObject *FieldElement_op_sub(FieldElement *op1, FieldElement *op2) {
 		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
 			PyObject *nop1;
 			PyObject *nop2;
-			nop1 = (Py_TYPE(op1))->tp_as_number->nb_negative((PyObject *)op1);
-			nop2 = (Py_TYPE(op2))->tp_as_number->nb_negative((PyObject *)op2);
-			if ((nop1 == NULL) || (nop2 == NULL)) {
+			if (!PyLong_Check((PyObject *)op1)) {
+				Py_RETURN_NOTIMPLEMENTED;
+			}
+			nop1 = PyNumber_Negative((PyObject *)op1);
+			if (nop1 == NULL) {
+				return NULL;
+			}
+			nop2 = PyNumber_Negative((PyObject *)op2);
+			if (nop2 == NULL) {
+				Py_DECREF(nop1);
 				return NULL;
 			}
 			rop = (FieldElement *)FieldElement_op_sub((FieldElement *)nop2, (FieldElement *)nop1);
-- 
2.43.0


From 8ed7fb8a169eacc2e858f73c65c34569adba7b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 21/37] fix: Python: comparing FieldElements of different
 fields aborted

---
 python/pyfield.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index d7d27ad..c2ca1a2 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -455,12 +455,12 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 		}
 		switch (op) {
 		case Py_EQ:
-			if (mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) == 0) {
+			if ((((FieldElement *)a)->fe->fp == ((FieldElement *)b)->fe->fp) && (mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) == 0)) {
 				result = 1;
 			}
 			break;
 		case Py_NE:
-			if (mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) != 0) {
+			if ((((FieldElement *)a)->fe->fp != ((FieldElement *)b)->fe->fp) || (mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) != 0)) {
 				result = 1;
 			}
 			break;
-- 
2.43.0


From 1736d0bdb9453debf3b74416843d8e09f3700acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 22/37] fix: Python: moduli that are zero or larger than the
 field implementation takes are refused (crash, abort)

---
 python/pycurve.c   | 16 ++++++++--------
 python/pyfield.c   |  4 ++--
 python/pygmplong.c | 12 ++++++++++++
 python/pygmplong.h |  1 +
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index 41deffc..8f9dc8b 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -191,7 +191,7 @@ static PyObject *ECurve_create_ws(PyObject *none, PyObject *args) {
     mpz_init(gxmpz);
     mpz_init(gympz);
 
-    status = _pylong_to_mpz_unsigned((PyLongObject *)p, pmpz);
+    status = _pylong_to_mpz_modulus((PyLongObject *)p, pmpz);
     if (status != 0) goto ConversionError;
 
     status = _pylong_to_mpz_unsigned((PyLongObject *)a, ampz);
@@ -200,7 +200,7 @@ static PyObject *ECurve_create_ws(PyObject *none, PyObject *args) {
     status = _pylong_to_mpz_unsigned((PyLongObject *)b, bmpz);
     if (status != 0) goto ConversionError;
 
-    status = _pylong_to_mpz_unsigned((PyLongObject *)n, nmpz);
+    status = _pylong_to_mpz_modulus((PyLongObject *)n, nmpz);
     if (status != 0) goto ConversionError;
 
     status = _pylong_to_mpz_unsigned((PyLongObject *)h, hmpz);
@@ -276,7 +276,7 @@ static PyObject *ECurve_create_ed(PyObject *none, PyObject *args) {
     mpz_init(gxmpz);
     mpz_init(gympz);
 
-    status = _pylong_to_mpz_unsigned((PyLongObject *)p, pmpz);
+    status = _pylong_to_mpz_modulus((PyLongObject *)p, pmpz);
     if (status != 0) goto ConversionError;
 
     status = _pylong_to_mpz_unsigned((PyLongObject *)c, cmpz);
@@ -285,7 +285,7 @@ static PyObject *ECurve_create_ed(PyObject *none, PyObject *args) {
     status = _pylong_to_mpz_unsigned((PyLongObject *)d, dmpz);
     if (status != 0) goto ConversionError;
 
-    status = _pylong_to_mpz_unsigned((PyLongObject *)n, nmpz);
+    status = _pylong_to_mpz_modulus((PyLongObject *)n, nmpz);
     if (status != 0) goto ConversionError;
 
     status = _pylong_to_mpz_unsigned((PyLongObject *)h, hmpz);
@@ -361,7 +361,7 @@ static PyObject *ECurve_create_mo(PyObject *none, PyObject *args) {
     mpz_init(gxmpz);
     mpz_init(gympz);
 
-    status = _pylong_to_mpz_unsigned((PyLongObject *)p, pmpz);
+    status = _pylong_to_mpz_modulus((PyLongObject *)p, pmpz);
     if (status != 0) goto ConversionError;
 
     status = _pylong_to_mpz_unsigned((PyLongObject *)B, Bmpz);
@@ -370,7 +370,7 @@ static PyObject *ECurve_create_mo(PyObject *none, PyObject *args) {
     status = _pylong_to_mpz_unsigned((PyLongObject *)A, Ampz);
     if (status != 0) goto ConversionError;
 
-    status = _pylong_to_mpz_unsigned((PyLongObject *)n, nmpz);
+    status = _pylong_to_mpz_modulus((PyLongObject *)n, nmpz);
     if (status != 0) goto ConversionError;
 
     status = _pylong_to_mpz_unsigned((PyLongObject *)h, hmpz);
@@ -446,7 +446,7 @@ static PyObject *ECurve_create_te(PyObject *none, PyObject *args) {
     mpz_init(gxmpz);
     mpz_init(gympz);
 
-    status = _pylong_to_mpz_unsigned((PyLongObject *)p, pmpz);
+    status = _pylong_to_mpz_modulus((PyLongObject *)p, pmpz);
     if (status != 0) goto ConversionError;
 
     status = _pylong_to_mpz_unsigned((PyLongObject *)a, ampz);
@@ -455,7 +455,7 @@ static PyObject *ECurve_create_te(PyObject *none, PyObject *args) {
     status = _pylong_to_mpz_unsigned((PyLongObject *)d, dmpz);
     if (status != 0) goto ConversionError;
 
-    status = _pylong_to_mpz_unsigned((PyLongObject *)n, nmpz);
+    status = _pylong_to_mpz_modulus((PyLongObject *)n, nmpz);
     if (status != 0) goto ConversionError;
 
     status = _pylong_to_mpz_unsigned((PyLongObject *)h, hmpz);
diff --git a/python/pyfield.c b/python/pyfield.c
index c2ca1a2..cccde9e 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -80,7 +80,7 @@ static int FieldElement_init(FieldElement *self, PyObject *args, PyObject *kwarg
 	}
 
 	mpz_init(pmpz);
-	status = _pylong_to_mpz_unsigned(p, pmpz);
+	status = _pylong_to_mpz_modulus(p, pmpz);
 	if (status != 0) {
 		PyErr_SetString(PyExc_TypeError, "Error parsing FieldElement_init modulus");
 		mpz_clear(pmpz);
@@ -397,7 +397,7 @@ static PyObject *FieldElement_urandom(PyObject *none, PyObject *plong) {
 
 	mpz_init(pmpz);
 
-	status = _pylong_to_mpz_unsigned((PyLongObject *)plong, pmpz);
+	status = _pylong_to_mpz_modulus((PyLongObject *)plong, pmpz);
 	if (status != 0) {
 		PyErr_SetString(PyExc_TypeError, "Error parsing FieldElement_init modulus");
 		mpz_clear(pmpz);
diff --git a/python/pygmplong.c b/python/pygmplong.c
index fc3218c..9dd91af 100644
--- a/python/pygmplong.c
+++ b/python/pygmplong.c
@@ -130,6 +130,18 @@ int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
 	return 0;
 }
 
+// a modulus must be positive and small enough for the field implementation
+// (its products have to fit _MPFP_MAX_LIMBS)
+int _pylong_to_mpz_modulus(PyLongObject *pobj, mpz_t pmpz) {
+	if (_pylong_to_mpz_unsigned(pobj, pmpz) != 0) {
+		return -1;
+	}
+	if ((mpz_sgn(pmpz) <= 0) || (mpz_size(pmpz) * 2 > _MPFP_MAX_LIMBS)) {
+		return -1;
+	}
+	return 0;
+}
+
 PyObject *_mpz_to_pylong(mpz_t pmpz) {
 	mp_limb_t pdata[_MPFP_MAX_LIMBS];
 	size_t countp;
diff --git a/python/pygmplong.h b/python/pygmplong.h
index 9510410..ea5f696 100644
--- a/python/pygmplong.h
+++ b/python/pygmplong.h
@@ -41,6 +41,7 @@ extern "C" {
 
 int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz);
 int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz);
+int _pylong_to_mpz_modulus(PyLongObject *pobj, mpz_t pmpz);
 PyObject *_mpz_to_pylong(mpz_t pmpz);
 PyObject *_mpFp_to_pylong(mpFp_t pFp);
 
-- 
2.43.0


From a1f53ce91512b4e16dd749911b547255dc5a54ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 23/37] fix: Python: ECPoint coordinates and scalars beyond the
 integer conversion limit (taken as 0, abort)

---
 python/pypoint.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index 4a9d2d8..239557c 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -110,9 +110,14 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 }
                 
                 mpz_init(ixmpz);
-                _pylong_to_mpz((PyLongObject *)ix, ixmpz);
                 mpz_init(iympz);
-                _pylong_to_mpz((PyLongObject *)iy, iympz);
+                if ((_pylong_to_mpz((PyLongObject *)ix, ixmpz) != 0) ||
+                    (_pylong_to_mpz((PyLongObject *)iy, iympz) != 0)) {
+                    mpz_clear(iympz);
+                    mpz_clear(ixmpz);
+                    PyErr_SetString(PyExc_ValueError, "initializer coordinate too large");
+                    return -1;
+                }
 
                 mpECP_set_mpz(self->ecp, ixmpz, iympz, ((ECurve *)curve)->ec);
                 
@@ -378,7 +383,11 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 	    int status;
 
 		status = _pylong_to_mpz((PyLongObject *)op2, scalar);
-		assert(status == 0);
+		if (status != 0) {
+			mpz_clear(scalar);
+			PyErr_SetString(PyExc_ValueError, "integer scalar too large");
+			return NULL;
+		}
 		if (mpz_cmp_ui(scalar, 0) < 0) {
 		    negative = 1;
 		    mpz_neg(scalar, scalar);
-- 
2.43.0


From 313c6543263ddbb2b86a4a84e23be56789d9cb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 24/37] fix: Python: sum with the neutral element kept a
 pointer into a curve object it did not keep alive

---
 python/pypoint.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pypoint.c b/python/pypoint.c
index 239557c..123c4db 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -321,6 +321,8 @@ static PyObject *ECPoint_op_add(ECPoint *op1, ECPoint *op2) {
     rop->cv = op1->cv;
     Py_INCREF(rop->cv);
     mpECP_add(rop->ecp, op1->ecp, op2->ecp);
+    // the sum may refer to the curve of op2, which rop does not keep alive
+    rop->ecp->cvp = rop->cv->ec;
 	rop->ready = 1;
     return (PyObject *)rop;
 }
@@ -343,6 +345,7 @@ static PyObject *ECPoint_op_sub(ECPoint *op1, ECPoint *op2) {
     rop->cv = op1->cv;
     Py_INCREF(rop->cv);
     mpECP_sub(rop->ecp, op1->ecp, op2->ecp);
+    rop->ecp->cvp = rop->cv->ec;
 	rop->ready = 1;
     return (PyObject *)rop;
 }
-- 
2.43.0


From 9a4b5a6c671df4046c44094a62c60e13ff0e812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 25/37] fix: Python: ECPoint.urandom of something that is no
 curve aborted

---
 python/pypoint.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index 123c4db..0234094 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -427,7 +427,10 @@ PyDoc_STRVAR(ECPoint_urandom__doc__,
 static PyObject *ECPoint_urandom(PyObject *none, ECurve *curve) {
 	ECPoint *rop;
 	
-	assert(PyObject_TypeCheck((PyObject *)curve, &ECurveType));
+	if (!PyObject_TypeCheck((PyObject *)curve, &ECurveType)) {
+		PyErr_SetString(PyExc_TypeError, "ECPoint.urandom: expected ECurve type");
+		return NULL;
+	}
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
     mpECP_urandom(rop->ecp, curve->ec);
-- 
2.43.0


From 8d5ff325fc0b0c7a858146d2692ef1a203f4ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 26/37] fix: Python: strings without an encoding (NULL) or with
 embedded zeros; message bytes lost a reference on Sign and Verify

---
 python/pycurve.c     |  3 ++-
 python/pyecdsa.c     | 13 ++++++++++---
 python/pyecelgamal.c |  3 ++-
 python/pypoint.c     |  8 +++++++-
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index 8f9dc8b..7b8132e 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -706,7 +706,8 @@ static PyObject *ECurve_getattro(PyObject *o, PyObject *attr_name) {
     }
 
 	assert(PyUnicode_Check(attr_name) != 0);
-    attr_nm_c = PyUnicode_AsUTF8(attr_name);
+    attr_nm_c = (char *)PyUnicode_AsUTF8(attr_name);
+    if (attr_nm_c == NULL) return NULL;
 
     return ECurve_getattr(o, attr_nm_c);
 }
diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 00af979..5d86bfe 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -157,7 +157,12 @@ static int ECDSASignature_init(ECDSASignature *self, PyObject *args, PyObject *k
             return -1;
         }
 
-        sstr = PyUnicode_AsUTF8(ssbytes);
+        sstr = (char *)PyUnicode_AsUTF8AndSize(ssbytes, &bsz);
+        if (sstr == NULL) return -1;
+        if (strlen(sstr) != (size_t)bsz) {
+            PyErr_SetString(PyExc_ValueError, "ECDSASignature_init: cannot initialize from string object");
+            return -1;
+        }
 
         status =  mpECDSASignature_init_import_str(self->sig, ss->sscheme, sstr);
         if (status != 0) {
@@ -264,13 +269,14 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
 
     if (PyBytes_Check(msg)) {
         bytes = msg;
+        Py_INCREF(bytes);
     } else {
         if (!PyUnicode_Check(msg)) {
     		PyErr_SetString(PyExc_TypeError, "ECDSASignature_verify: 2nd arg must be message of Bytes or Unicode type");
     		return NULL;
         }
         bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
+        if (bytes == NULL) return NULL;
     }
     
     ham.hashmodule = ssis->ss->hashmodule;
@@ -565,13 +571,14 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 
     if (PyBytes_Check(msg)) {
         bytes = msg;
+        Py_INCREF(bytes);
     } else {
         if (!PyUnicode_Check(msg)) {
     		PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: arg 2 must be message of Bytes or Unicode type");
     		return NULL;
         }
         bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
+        if (bytes == NULL) return NULL;
     }
 
     psig = (ECDSASignature *)ECDSASignature_new(&ECDSASignatureType, NULL, NULL);
diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index 933e3a7..4ddcc32 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -299,7 +299,8 @@ static PyObject *ECElgamalCiphertext_getattro(PyObject *o, PyObject *attr_name)
     }
 
 	assert(PyUnicode_Check(attr_name) != 0);
-    attr_nm_c = PyUnicode_AsUTF8(attr_name);
+    attr_nm_c = (char *)PyUnicode_AsUTF8(attr_name);
+    if (attr_nm_c == NULL) return NULL;
 
     return ECElgamalCiphertext_getattr(o, attr_nm_c);
 }
diff --git a/python/pypoint.c b/python/pypoint.c
index 0234094..c480276 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -142,8 +142,14 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
         } else {
             if (PyUnicode_Check(initial)) {
                 char *buffer;
+                Py_ssize_t bsize;
 
-                buffer = (char *)PyUnicode_AsUTF8(initial);
+                buffer = (char *)PyUnicode_AsUTF8AndSize(initial, &bsize);
+                if (buffer == NULL) return -1;
+                if (strlen(buffer) != (size_t)bsize) {
+            		PyErr_SetString(PyExc_ValueError, "invalid curve point");
+            		return -1;
+                }
                 status = mpECP_set_str(self->ecp,buffer,((ECurve *)curve)->ec);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "invalid curve point");
-- 
2.43.0


From 8818fe7c5f932228bbaf092988ddb9eb6fa85c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 27/37] fix: Python: hashing left an argument tuple behind that
 referred to the message without owning it

---
 python/pyecdsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 5d86bfe..68baffd 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -84,7 +84,7 @@ static void _python_hash_wrapper(unsigned char *hash, unsigned char *msg, size_t
     assert(status == 0);
     pyhash = PyObject_CallObject(hnew, tuple);
     assert(pyhash != NULL);
-    Py_DECREF(ham->msg);
+    Py_DECREF(tuple);
     Py_DECREF(hnew);
 
     Py_INCREF(pyhash);
-- 
2.43.0


From 306fdb3d0feb819e15cb9937f9144cb0dbc8dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 28/37] fix: Python: ECDSASignatureScheme of a module without
 digest_size or new, or whose digest fails

---
 python/pyecdsa.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 68baffd..243ea01 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -400,7 +400,7 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 
     digest_size = PyDict_GetItemString(hashmodule_dict, "digest_size");
 
-    if (!PyLong_Check(digest_size)) {
+    if ((digest_size == NULL) || !PyLong_Check(digest_size)) {
         PyErr_SetString(PyExc_TypeError, "Hash module digest_size is not an Integer(PyLong) type");
         return -1;
     }
@@ -422,7 +422,7 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 
         // call hash.new(msg) to initialize and process message
         hnew = PyDict_GetItemString(hashmodule_dict, "new");
-        if (!PyFunction_Check(hnew)) {
+        if ((hnew == NULL) || !PyFunction_Check(hnew)) {
             PyErr_SetString(PyExc_TypeError, "Hash module.new() is not a function");
             return -1;
         }
@@ -463,7 +463,7 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
         
         Py_INCREF(pyhash);
         hbytes = PyObject_CallMethod(pyhash, "digest", NULL);
-        if (!PyBytes_Check(hbytes)) {
+        if ((hbytes == NULL) || !PyBytes_Check(hbytes)) {
             PyErr_SetString(PyExc_TypeError, "Hash object item digest() did not return bytes");
             return -1;
         }
-- 
2.43.0


From 0b4f9c7e26dddd6a0abd7599d7886517e3d17933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 29/37] fix: Python: ElGamal ciphertexts and points taken from
 them referred to curve objects they did not keep alive

---
 python/pyecelgamal.c | 7 +++++++
 python/pypoint.c     | 1 +
 2 files changed, 8 insertions(+)

diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index 4ddcc32..3b349ae 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -94,6 +94,8 @@ static int ECElgamalCiphertext_init(ECElgamalCiphertext *self, PyObject *args, P
     mpECP_set(self->ctxt->C, C->ecp);
     mpECP_init(self->ctxt->D, D->ecp->cvp);
     mpECP_set(self->ctxt->D, D->ecp);
+    // D may come from another, equal, curve object, which is not kept alive
+    self->ctxt->D->cvp = self->cv->ec;
 
     // you're ready!
     self->ready = 1;
@@ -197,6 +199,8 @@ static PyObject *ECElgamalCiphertext_encrypt(PyObject *none, PyObject *args, PyO
 
     Py_INCREF((PyObject *)key->cv);
     rop->cv = key->cv;
+    rop->ctxt->C->cvp = rop->cv->ec;
+    rop->ctxt->D->cvp = rop->cv->ec;
     
     // you're ready!
     rop->ready = 1;
@@ -261,6 +265,9 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
         return NULL;
     }
 
+    // refer to the curve object which the point keeps alive
+    rop->ecp->cvp = rop->cv->ec;
+
     // you're ready!
     rop->ready = 1;
     // all's clear
diff --git a/python/pypoint.c b/python/pypoint.c
index c480276..7b4037c 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -496,6 +496,7 @@ PyObject *PyECPoint_FromECP(mpECP_t pt) {
 	mpECP_init(rop->ecp, pt->cvp);
 	mpECP_set(rop->ecp, pt);
 	rop->cv = (ECurve *)PyECurve_FromECurve(pt->cvp);
+	rop->ecp->cvp = rop->cv->ec;
 	Py_INCREF(rop->cv);
 	rop->ready = 1;
 	return (PyObject *)rop;
-- 
2.43.0


From 93952d774cc29b1e21857725b08ccdacbcab9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 30/37] fix: signing with a key in another field aborted the
 process

---
 src/ecdsa.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 7774da1..c3d4ff7 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -93,6 +93,9 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
 
     if ((msg == NULL) || (sz == 0)) return -1;
 
+    // the secret key must be an element of the scalar field
+    if (mpz_cmp(sK->fp->p, sscheme->cvp->n) != 0) return -1;
+
     hash = (unsigned char *)malloc(sscheme->H->hsz * sizeof(char));
     assert(hash != NULL);
 
-- 
2.43.0


From f3132808363e462d2cae8dcda20cc62d6ab011e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 31/37] fix: verifying with a public key on another curve
 aborted the process

---
 src/ecdsa.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index c3d4ff7..44a5cc2 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -167,6 +167,9 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
 
     if (sig == NULL) return -1;
 
+    // a key on another curve verifies nothing
+    if (mpECurve_cmp(pK->cvp, sig->sscheme->cvp) != 0) return -1;
+
     // validate signature input, presume public key was validated at import
     if ((mpz_cmp(sig->r->fp->p, sig->sscheme->cvp->n) != 0) ||
         (mpz_cmp(sig->s->fp->p, sig->sscheme->cvp->n) != 0)) {
-- 
2.43.0


From c3b471eaf41ddd9eba0f84b1f85e659327f7de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 32/37] fix: Python: a failing Sign returned without setting an
 exception

---
 python/pyecdsa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 243ea01..8072327 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -589,6 +589,7 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
     status = mpECDSASignature_init_Sign(psig->sig, ss->sscheme, kfe->fe, (unsigned char *)&ham, PyBytes_Size(bytes));
     Py_DECREF(bytes);
     if (status != 0) {
+        PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme_sign: cannot sign (empty message, or key not in the scalar field of the curve)");
         return NULL;
     }
     psig->ss = ss;
-- 
2.43.0


From 04f79072851efe7cc882b6337e5d3333853f1ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:38 +0000
Subject: [PATCH 33/37] fix: curves whose elements do not fit the encoded size
 were accepted, and exporting a point aborted

---
 src/ecurve.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index ed31195..b7b94f5 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -32,6 +32,7 @@
 #include <ecc/ecurve.h>
 #include <ecc/field.h>
 #include <gmp.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -815,6 +816,12 @@ void mpECurve_set(mpECurve_t rop, mpECurve_t op){
     return;
 }
 
+// encoded coordinates take as many bytes as hold (bits) bits, so these have
+// to be enough for every element of the field
+static int _bits_valid(mpFp_field_ptr fp, unsigned int bits) {
+    return (bits <= (INT_MAX - 7)) && (((bits + 7) / 8) >= ((mpz_sizeinbase(fp->p, 2) + 7) / 8));
+}
+
 int mpECurve_set_str_ws(mpECurve_t cv, char *p, char *a, char *b, char *n,
 char *h, char *Gx, char *Gy, unsigned int bits){
     int status;
@@ -840,7 +847,7 @@ char *h, char *Gx, char *Gy, unsigned int bits){
     mpz_set_str(cv->G[0], Gx, 0);
     mpz_set_str(cv->G[1], Gy, 0);
     cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
+    status = (_bits_valid(cv->fp, bits) == 0) || (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
     mpz_clear(t);
     return status;
 }
@@ -869,7 +876,7 @@ char *h, char *Gx, char *Gy, unsigned int bits){
     mpz_set_str(cv->G[0], Gx, 0);
     mpz_set_str(cv->G[1], Gy, 0);
     cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
+    status = (_bits_valid(cv->fp, bits) == 0) || (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
     mpz_clear(t);
     return status;
 }
@@ -931,7 +938,7 @@ char *h, char *Gx, char *Gy, unsigned int bits){
     mpz_set_str(cv->G[0], Gx, 0);
     mpz_set_str(cv->G[1], Gy, 0);
     cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
+    status = (_bits_valid(cv->fp, bits) == 0) || (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
     mpz_clear(t);
     return status;
 }
@@ -955,7 +962,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     mpz_set(cv->G[0], Gx);
     mpz_set(cv->G[1], Gy);
     cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
+    status = (_bits_valid(cv->fp, bits) == 0) || (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
     return status;
 }
 
@@ -978,7 +985,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     mpz_set(cv->G[0], Gx);
     mpz_set(cv->G[1], Gy);
     cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
+    status = (_bits_valid(cv->fp, bits) == 0) || (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
     return status;
 }
 
@@ -1044,7 +1051,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     mpz_set(cv->G[0], Gx);
     mpz_set(cv->G[1], Gy);
     cv->bits = bits;
-    status = (error != 0) || (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
+    status = (error != 0) || (_bits_valid(cv->fp, bits) == 0) || (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
     return status;
 }
 
@@ -1067,7 +1074,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     mpz_set(cv->G[0], Gx);
     mpz_set(cv->G[1], Gy);
     cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
+    status = (_bits_valid(cv->fp, bits) == 0) || (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
     return status;
 }
 
-- 
2.43.0


From 6a4bca3f4d98a5559fce6cabc6076c8bbf0eba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:33 +0000
Subject: [PATCH 34/37] fix: Go: a negative integer argument is left as it is

---
 ecgo/field.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ecgo/field.go b/ecgo/field.go
index 036f366..a779b1d 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -107,13 +107,8 @@ func bigint_to_c_mpz_unsigned(m *C.__mpz_struct, a *big.Int) error {
 }
 
 func bigint_to_c_mpz_signed(m *C.__mpz_struct, a *big.Int) {
-	var negative bool
-
-	if a.Cmp(big.NewInt(0)) < 0 {
-		negative = true
-		a.Neg(a)
-	}
-
+	// Bytes is the absolute value: the caller's integer is left as it is
+	negative := a.Sign() < 0
 	abytes := a.Bytes()
 
 	if len(abytes) == 0 {
-- 
2.43.0


From f00e058b0465133906a5310ed8ec92f2e19b4126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:33 +0000
Subject: [PATCH 35/37] fix: Go: FieldElement.Bit of a number beyond a C int is
 0

---
 ecgo/field.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecgo/field.go b/ecgo/field.go
index a779b1d..87fb477 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -301,5 +301,9 @@ func (z *FieldElement) Exp(a *FieldElement, e uint64) *FieldElement {
 }
 
 func (z *FieldElement) Bit(i int) uint {
+	// no element has a bit whose number does not fit a C int
+	if int(C.int(i)) != i {
+		return 0
+	}
 	return uint(C.mpFp_tstbit(z.fe, C.int(i)))
 }
-- 
2.43.0


From 32fe5e78ac2ac7e4b3b39d666c31d29acecc42bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:33 +0000
Subject: [PATCH 36/37] fix: Go: IsNeutral knows the neutral element of Edwards
 curves

---
 ecgo/point.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ecgo/point.go b/ecgo/point.go
index c8d7a4a..a915f9f 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -230,12 +230,8 @@ func (z *Point) Affine() (x, y *big.Int) {
 }
 
 func (z *Point) IsNeutral() bool {
-	pt := z.ecp
-	isn := pt.is_neutral
-	if int(isn) == 0 {
-		return false
-	}
-	return true
+	// on Edwards curves the neutral element is an affine point
+	return z.Cmp(NewPointNeutral(z.cv)) == 0
 }
 
 func (z *Point) StringCompressed() string {
-- 
2.43.0


From 62076584265ec84f296b4ef3ae90e1880dd6c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:33 +0000
Subject: [PATCH 37/37] fix: Go: a ciphertext made of points on equal curve
 objects refers to one of them

---
 ecgo/ecelgamal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index 08b4fa0..2f1f91d 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -132,6 +132,8 @@ func NewECElgamalCiphertext(c, d *Point) (ctxt *ECElgamalCiphertext) {
 	C.mpECP_set(C.C_of(ctxt.egc), c.ecp)
 	C.mpECP_init(C.D_of(ctxt.egc), d.cv.ec)
 	C.mpECP_set(C.D_of(ctxt.egc), d.ecp)
+	// only ctxt.cv is kept alive, d may refer to another (equal) curve object
+	C.D_of(ctxt.egc).cvp = c.cv.ec
 	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	return ctxt
 }
-- 
2.43.0

