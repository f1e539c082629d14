From f766ce3e951953880c6681b0b8ca99208e4df4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 1/4] fix: return the error of the point addition in
 ecc_mul_add

---
 fr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fr.go b/fr.go
index 20aefb9..e46b65d 100644
--- a/fr.go
+++ b/fr.go
@@ -34,6 +34,9 @@ func ecc_mul_add(api frontend.API, buf []frontend.Variable, offset int) error {
 	}
 
 	res, err := CalcVerifyBN256Add(api, buf[offset], buf[offset+1], buf[offset+2], buf[offset+3])
+	if err != nil {
+		return err
+	}
 	buf[offset] = res[0]
 	buf[offset+1] = res[1]
 	return nil
-- 
2.43.0


From 3e639a774078c1eb994011574c35e95d8f93b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 2/4] fix: register modHint with the solver

---
 aggregator_lib_circuit.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index e0e9d34..afa1509 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -30,6 +30,7 @@ func init() {
 	solver.RegisterHint(MsmHint)
 	solver.RegisterHint(AddHint)
 	solver.RegisterHint(Keccak256Hint)
+	solver.RegisterHint(modHint)
 }
 
 // BN256MsmCircuit is the circuit that performs a bn256 pairing operation
-- 
2.43.0


From 1b2248e5c83b2f15fece81b923c01980a500bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 3/4] fix: keep the caller's points intact in the native curve
 circuits

---
 aggregator_lib_circuit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index afa1509..e29541e 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -56,7 +56,7 @@ func VerifyBN256Msm(
 	scalar *big.Int,
 	res *bn254.G1Affine,
 ) error {
-	g1Point = g1Point.ScalarMultiplication(g1Point, scalar)
+	g1Point = new(bn254.G1Affine).ScalarMultiplication(g1Point, scalar)
 	//log.Println("VerifyBN256Msm", g1Point.String(), res.String())
 	api.AssertIsEqual(g1Point.X, res.X)
 	api.AssertIsEqual(g1Point.Y, res.Y)
@@ -86,7 +86,7 @@ func VerifyBN256Add(
 	g11Point *bn254.G1Affine,
 	res *bn254.G1Affine,
 ) error {
-	sum := g10Point.Add(g10Point, g11Point)
+	sum := new(bn254.G1Affine).Add(g10Point, g11Point)
 	api.AssertIsEqual(sum.X, res.X)
 	api.AssertIsEqual(sum.Y, res.Y)
 	return nil
-- 
2.43.0


From e44b2e913f4d5f344efb22b56135e38820cab22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 4/4] fix: derive the keccak preimage from the instances in
 VerifyInstanceHash

---
 circuit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/circuit.go b/circuit.go
index 4e8309a..ea55a2c 100644
--- a/circuit.go
+++ b/circuit.go
@@ -142,8 +142,12 @@ func VerifyInstanceHash(api frontend.API, inputs []frontend.Variable) (frontend.
 		hashU8Array = append(hashU8Array, binaryF.ByteValueOf(result[i]))
 	}
 
-	for i := 33; i < length+1; i++ {
-		inputU8Array = append(inputU8Array, binaryF.ByteValueOf(result[i]))
+	// the preimage is the 32-byte big-endian encoding of the inputs themselves
+	for _, input := range inputs {
+		bits := api.ToBinary(input, 256)
+		for i := 31; i >= 0; i-- {
+			inputU8Array = append(inputU8Array, binaryF.ByteValueOf(api.FromBinary(bits[8*i:8*i+8]...)))
+		}
 	}
 
 	//input := uints.NewU8Array(result[0].(*big.Int).Bytes())
-- 
2.43.0

