From 87247dadfae396889ba7dbe8e434f68628a362a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 1/9] fix: Z_Q::operator+= loses carries when an operand is
 added to itself

---
 include/HEAAN/arith/Z_Q.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HEAAN/arith/Z_Q.h b/include/HEAAN/arith/Z_Q.h
index 3fd671f..637c559 100644
--- a/include/HEAAN/arith/Z_Q.h
+++ b/include/HEAAN/arith/Z_Q.h
@@ -191,8 +191,9 @@ template<int LOGQ>
 void Z_Q<LOGQ>::operator+=(const Z_Q<LOGQ>& A) {
 	int length = (LOGQ + 63) / 64; bool c = 0;
 	for (int i = 0; i < length; i++) {
-		data[i] += A.data[i];
-		bool c_next = data[i] < A.data[i];
+		uint64_t Ai = A.data[i]; // A may be *this
+		data[i] += Ai;
+		bool c_next = data[i] < Ai;
 		if (c) data[i]++;
 		c = (c&&data[i] == 0) || c_next;
 	}
-- 
2.43.0


From f6ef9524abe39864d0d9f41bfd9240ed19d22425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 2/9] fix: Z_Q::operator double uses only the lowest limb

---
 include/HEAAN/arith/Z_Q.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/HEAAN/arith/Z_Q.h b/include/HEAAN/arith/Z_Q.h
index 637c559..fc0f963 100644
--- a/include/HEAAN/arith/Z_Q.h
+++ b/include/HEAAN/arith/Z_Q.h
@@ -315,7 +315,9 @@ Z_Q<LOGQ>::operator double() const {
 	bool is_negative =  val.is_bigger_than_halfQ();
 	if(is_negative)
 	    val.negate();
-	double result = (double) val[0];
+	double result = 0;
+	for(int i = val.get_length() - 1; i >= 0; --i)
+	    result = result * 18446744073709551616. + (double) val[i];
 	if(is_negative)
 	    result *= -1;
 	return result;
-- 
2.43.0


From 0aef57178d8e0c58e49fc725f1f8eaefc7d57b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 3/9] fix: CRT::icrt returns wrong residues for negative
 single-limb integers above the prime

---
 include/HEAAN/arith/conv/crt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HEAAN/arith/conv/crt.h b/include/HEAAN/arith/conv/crt.h
index 937b5dc..0a579eb 100644
--- a/include/HEAAN/arith/conv/crt.h
+++ b/include/HEAAN/arith/conv/crt.h
@@ -101,7 +101,7 @@ void CRT<L, LOGQ>::icrt(const Z_Q<LOGQ> &A, uint64_t a_rns[L]) const {
     int len = A_abs.get_length();
     for(int i = 0; i< L; ++i){
       // compute a % q[i] where a = \Sigma a[i]*beta^i
-      uint64_t ah = A_abs[len-1];
+      uint64_t ah = A_abs[len-1] % q[i];
       for(int j = len-2; j>=0; --j) {
         ah  = mod(A_abs[j], ah, q[i]);
       }
@@ -111,7 +111,7 @@ void CRT<L, LOGQ>::icrt(const Z_Q<LOGQ> &A, uint64_t a_rns[L]) const {
     int len = A.get_length();
     for(int i = 0; i< L; ++i){
       // compute a % q[i] where a = \Sigma a[i]*beta^i
-      uint64_t ah = A[len-1];
+      uint64_t ah = A[len-1] % q[i];
       for(int j = len-2; j>=0; --j) {
         ah  = mod(A[j], ah, q[i]);
       }
-- 
2.43.0


From 503440115f0f91b49961d3d320fcb4998401a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 4/9] fix: SparseDiagonal += and -= leave a non-zero diagonal
 marked as unused

---
 include/HEAAN/matrix/matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HEAAN/matrix/matrix.h b/include/HEAAN/matrix/matrix.h
index 28a07fc..7ff073e 100644
--- a/include/HEAAN/matrix/matrix.h
+++ b/include/HEAAN/matrix/matrix.h
@@ -98,6 +98,7 @@ struct SparseDiagonal {
 			assert(off[s] == B.off[s]);
 			for (int i = 0; i < N; i++)
 				vec[s][i] += B.vec[s][i];
+			zero[s] = zero[s] && B.zero[s];
 		}
 	}
 	//
@@ -106,6 +107,7 @@ struct SparseDiagonal {
 			assert(off[s] == B.off[s]);
 			for (int i = 0; i < N; i++)
 				vec[s][i] -= B.vec[s][i];
+			zero[s] = zero[s] && B.zero[s];
 		}
 	}
 	//
-- 
2.43.0


From 82b63009ea3f5763143a5e1c1e29272627f90314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 5/9] fix: aggregate reads past the end of its second message

---
 include/impl/message.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/impl/message.h b/include/impl/message.h
index eca85d6..66bb7eb 100644
--- a/include/impl/message.h
+++ b/include/impl/message.h
@@ -133,7 +133,7 @@ void aggregate(
 ){
     const int N = 1 << LOGN;
     for(int i = 0; i < N; ++i) {
-        z3.r[i] = i < N/2 ? z1.r[i] : z2.r[i];
-        z3.i[i] = i < N/2 ? z1.i[i] : z2.i[i];
+        z3.r[i] = i < N/2 ? z1.r[i] : z2.r[i - N/2];
+        z3.i[i] = i < N/2 ? z1.i[i] : z2.i[i - N/2];
     }
 }
\ No newline at end of file
-- 
2.43.0


From 25770b97e200a0f9dce7d9b821a60a1902820c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 6/9] fix: eval_poly_deg3/7/15 convert negative coefficients to
 an unsigned word

---
 include/HEAAN/poly.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/HEAAN/poly.h b/include/HEAAN/poly.h
index 6538f21..1147373 100644
--- a/include/HEAAN/poly.h
+++ b/include/HEAAN/poly.h
@@ -12,9 +12,10 @@ void eval_poly_deg3( const double u[4],
 	R_Q<LOGQ,N> L0[4];
 	for(int n=0;n<4;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA)); // What if u[n] * (1ULL<<LOGDELTA) exceeds 64 bit?
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA)); // What if u[n] * (1ULL<<LOGDELTA) exceeds 64 bit?
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
@@ -51,9 +52,10 @@ void eval_poly_deg7( const double u[8],
 	R_Q<LOGQ,N> L0[8];
 	for(int n=0;n<8;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA));
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA));
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
@@ -114,9 +116,10 @@ void eval_poly_deg15( const double u[16],
 	R_Q<LOGQ,N> L0[16];
 	for(int n=0;n<16;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA));
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA));
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
-- 
2.43.0


From 1f4c9e3c17cec0ecc919d293c7ed4c893156fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 7/9] fix: eval_poly_deg7 prints intermediate ciphertexts

---
 include/HEAAN/poly.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/HEAAN/poly.h b/include/HEAAN/poly.h
index 1147373..89af53d 100644
--- a/include/HEAAN/poly.h
+++ b/include/HEAAN/poly.h
@@ -91,9 +91,6 @@ void eval_poly_deg7( const double u[8],
 		temp[0][0]-=one;
 		RS<LOGQ-LOGDELTA, LOGQ-LOGDELTA*2,N>(temp,T4);
 	}
-	T4.print();
-	L2[0].print();
-	L2[1].print();
 	{
 		R_Q_square<LOGQ-LOGDELTA*2,N> temp;
 		Mul<LOGQ-LOGDELTA*2,N>(T4, L2[1], evk3, temp);
-- 
2.43.0


From f68c63f32de1cfe25b4c81040ff1e201988c2319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 8/9] fix: linear_transform with given keys uses an
 uninitialised ciphertext for the main diagonal

---
 include/HEAAN/linear_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/linear_transform.h b/include/HEAAN/linear_transform.h
index 2d3611d..019e55e 100644
--- a/include/HEAAN/linear_transform.h
+++ b/include/HEAAN/linear_transform.h
@@ -134,7 +134,7 @@ void linear_transform( const SparseDiagonal<1 << (LOGN - 1),S>& Ar,
 			R_Q<LOGQ, N> pt;
 			encode<LOGQ, LOGN>(Ar.vec[s],
 							Ai.vec[s], 1ULL << LOGDELTA, pt);
-			R_Q_square<LOGQ, N> ct_rot;
+			R_Q_square<LOGQ, N> ct_rot(ct);
 			if (Ar.off[s] != 0)
 				rot_ct<LOGQ, N>(ct, Ar.off[s],*(rkey[s]), ct_rot);
 			ct_rot *= pt;
-- 
2.43.0


From e152544497020a772bba9b35b0614e7ddc022185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 9/9] fix: dense linear_transform does not compile when used
 (missing rotation amount)

---
 include/HEAAN/linear_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/linear_transform.h b/include/HEAAN/linear_transform.h
index 019e55e..1a33f3e 100644
--- a/include/HEAAN/linear_transform.h
+++ b/include/HEAAN/linear_transform.h
@@ -110,7 +110,7 @@ void linear_transform( const double Ar[1 << (LOGN - 1)][1 << (LOGN - 1)],
 		ct_rot_pt *= pt;
 
 		Act += ct_rot_pt; R_Q_square<LOGQ,N> temp; 
-		rot_ct<LOGQ,N>(ct_rot, rkey, temp); // BUG
+		rot_ct<LOGQ,N>(ct_rot, 1, rkey, temp);
 		ct_rot = temp; 
 	}
 }
-- 
2.43.0

