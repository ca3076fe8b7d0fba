From 8ddad2b076079800a87d4faf3d25c9a597f221c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:01 +0000
Subject: [PATCH 1/4] fix: forward range checks to a native range checker

Go's switch does not fall through, so with a builder that implements
frontend.Rangechecker every range check was silently dropped.
---
 goldilocks/base.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/goldilocks/base.go b/goldilocks/base.go
index ed63eb6..3433e48 100644
--- a/goldilocks/base.go
+++ b/goldilocks/base.go
@@ -410,8 +410,7 @@ func (p *Chip) AssertIsEqual(x, y Variable) {
 
 func (p *Chip) rangeCheckerCheck(x frontend.Variable, nbBits int) {
 	switch p.rangeCheckerType {
-	case NATIVE_RANGE_CHECKER:
-	case BIT_DECOMP_RANGE_CHECKER:
+	case NATIVE_RANGE_CHECKER, BIT_DECOMP_RANGE_CHECKER:
 		p.rangeChecker.Check(x, nbBits)
 	case COMMIT_RANGE_CHECKER:
 		p.collectedMutex.Lock()
-- 
2.43.0


From a9dd47b6eb890be46069efd6bfe16ff035776165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:35 +0000
Subject: [PATCH 2/4] fix: bound the s-box reduction quotients so that they
 cannot wrap

x^3 < 2^192, so its quotient by the Goldilocks modulus fits 128 bits; with a
192-bit quotient the product quotient*modulus exceeds the native field and the
remainder is not unique.
---
 poseidon/goldilocks.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon/goldilocks.go b/poseidon/goldilocks.go
index 93e1ebe..45b363d 100644
--- a/poseidon/goldilocks.go
+++ b/poseidon/goldilocks.go
@@ -138,10 +138,10 @@ func (c *GoldilocksChip) ConstantLayerExtension(state GoldilocksStateExtension,
 func (c *GoldilocksChip) sBoxMonomial(x gl.Variable) gl.Variable {
 	x2 := c.gl.MulNoReduce(x, x)
 	x3 := c.gl.MulNoReduce(x, x2)
-	x3 = c.gl.ReduceWithMaxBits(x3, 192)
+	x3 = c.gl.ReduceWithMaxBits(x3, 128)
 	x6 := c.gl.MulNoReduce(x3, x3)
 	x7 := c.gl.MulNoReduce(x, x6)
-	return c.gl.ReduceWithMaxBits(x7, 192)
+	return c.gl.ReduceWithMaxBits(x7, 128)
 }
 
 func (c *GoldilocksChip) SBoxMonomialExtension(x gl.QuadraticExtensionVariable) gl.QuadraticExtensionVariable {
-- 
2.43.0


From 4b9186483098ea627f7b211b6bf9ad55398065a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:44 +0000
Subject: [PATCH 3/4] fix: match gate ids as a whole

---
 plonk/gates/gates.go             | 3 ++-
 plonk/gates/poseidon_gate.go     | 2 +-
 plonk/gates/poseidon_mds_gate.go | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/plonk/gates/gates.go b/plonk/gates/gates.go
index fc76580..2bef185 100644
--- a/plonk/gates/gates.go
+++ b/plonk/gates/gates.go
@@ -37,7 +37,8 @@ var gateRegexHandlers = map[*regexp.Regexp]func(parameters map[string]string) Ga
 func GateInstanceFromId(gateId string) Gate {
 	for regex, handler := range gateRegexHandlers {
 		matches := regex.FindStringSubmatch(gateId)
-		if matches != nil {
+		// The whole id has to match: "MyNoopGate" is not a NoopGate.
+		if matches != nil && matches[0] == gateId {
 			parameters := make(map[string]string)
 			for i, name := range regex.SubexpNames() {
 				if i != 0 && name != "" {
diff --git a/plonk/gates/poseidon_gate.go b/plonk/gates/poseidon_gate.go
index 2d3dbe4..bf9e4d8 100644
--- a/plonk/gates/poseidon_gate.go
+++ b/plonk/gates/poseidon_gate.go
@@ -8,7 +8,7 @@ import (
 	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
 )
 
-var poseidonGateRegex = regexp.MustCompile("PoseidonGate.*")
+var poseidonGateRegex = regexp.MustCompile(`PoseidonGate\(.*`)
 
 func deserializePoseidonGate(parameters map[string]string) Gate {
 	// Has the format "PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
diff --git a/plonk/gates/poseidon_mds_gate.go b/plonk/gates/poseidon_mds_gate.go
index 48cf20e..4c36d75 100644
--- a/plonk/gates/poseidon_mds_gate.go
+++ b/plonk/gates/poseidon_mds_gate.go
@@ -8,7 +8,7 @@ import (
 	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
 )
 
-var poseidonMdsGateRegex = regexp.MustCompile("PoseidonMdsGate.*")
+var poseidonMdsGateRegex = regexp.MustCompile(`PoseidonMdsGate\(.*`)
 
 func deserializePoseidonMdsGate(parameters map[string]string) Gate {
 	// Has the format "PoseidonMdsGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
-- 
2.43.0


From 7d734636bfc91aacb4d67cfae3aa19701586b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 4/4] fix: let the last chunk of the partial products be
 shorter

---
 plonk/plonk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plonk/plonk.go b/plonk/plonk.go
index ac2348c..1cd5204 100644
--- a/plonk/plonk.go
+++ b/plonk/plonk.go
@@ -103,7 +103,7 @@ func (p *PlonkChip) checkPartialProducts(
 		ppStartIdx := i * quotDegreeFactor
 		numeProduct := numerators[ppStartIdx]
 		denoProduct := denominators[ppStartIdx]
-		for j := uint64(1); j < quotDegreeFactor; j++ {
+		for j := uint64(1); j < quotDegreeFactor && ppStartIdx+j < uint64(len(numerators)); j++ {
 			numeProduct = glApi.MulExtension(numeProduct, numerators[ppStartIdx+j])
 			denoProduct = glApi.MulExtension(denoProduct, denominators[ppStartIdx+j])
 		}
-- 
2.43.0

