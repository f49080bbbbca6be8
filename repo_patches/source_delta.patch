From 553df2cba24750b18a76ce0ea2d3b9e163e4cbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 01/32] fix: negateFactors must not negate a shared big.Int in
 place

---
 circuitcompiler/factorHandling.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index a8f0caa..c747e71 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -239,7 +239,7 @@ func addFactors(leftFactors, rightFactors factors) factors {
 func negateFactors(leftFactors factors) factors {
 	for i := range leftFactors {
 		//leftFactors[i].multiplicative = field.Neg(leftFactors[i].multiplicative)
-		leftFactors[i].multiplicative = leftFactors[i].multiplicative.Neg(leftFactors[i].multiplicative)
+		leftFactors[i].multiplicative = new(big.Int).Neg(leftFactors[i].multiplicative)
 		if leftFactors[i].typ.Type == NumberToken {
 			leftFactors[i].typ.Identifier = leftFactors[i].multiplicative.String()
 		}
-- 
2.43.0


From f15883d17e8b958fc00b1766daf1567545cb6da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 02/32] fix: execute at most one branch of an if-else chain

---
 circuitcompiler/Programm.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 202117e..5746841 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -198,6 +198,18 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 func (currentCircuit *function) execute(gateCollector *gateContainer) (facs factors, returned bool, preloadedFunction function) {
 
 	for _, task := range currentCircuit.taskStack.data {
+		if task.Output.Type == IF {
+			//the members of an if-else chain exclude each other: only the first one whose condition holds is executed
+			if len(task.Inputs) != 0 && !currentCircuit.checkStaticCondition(task.Inputs[0]) {
+				continue
+			}
+			return currentCircuit.compile(&Constraint{
+				Output: Token{
+					Type:       IF_FUNCTION_CALL,
+					Identifier: task.Output.Identifier,
+				},
+			}, gateCollector)
+		}
 		f, returs, fkt := currentCircuit.compile(task, gateCollector)
 		if returs {
 			return f, true, fkt
-- 
2.43.0


From b6ef6c28cb4901f84c6485aeff6c4073d3821d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 03/32] fix: gates of different type must not share an
 identifier

---
 circuitcompiler/gate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index 32c858d..55c9d34 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -1,6 +1,7 @@
 package circuitcompiler
 
 import (
+	"crypto/sha256"
 	"fmt"
 	"math/big"
 	"sort"
@@ -54,7 +55,9 @@ func (gate *Gate) setAndGetID() (id string) {
 	sort.Sort(gate.expoIns)
 	sort.Sort(gate.outIns)
 	eo := hashFactorsToBig(append(gate.expoIns, gate.outIns...))
-	gate.identifier = new(big.Int).Xor(lr, eo).String()[:16]
+	//gates of different type on the same operands are different gates
+	id16 := sha256.Sum256([]byte(fmt.Sprintf("%v %v", gate.gateType, new(big.Int).Xor(lr, eo))))
+	gate.identifier = new(big.Int).SetBytes(id16[:]).String()[:16]
 	return gate.identifier
 }
 func (gate *Gate) minimizeR1CSDescriptiveComplexity() {
-- 
2.43.0


From e76cd958d0928de718dd966dbbfcad7dd18fc721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 04/32] fix: point doubling must be correct when the output
 aliases the input

---
 pairing/curve.go | 9 +++++----
 pairing/twist.go | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pairing/curve.go b/pairing/curve.go
index 819cb81..9932344 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -200,6 +200,11 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	f := pool.Get().Mul(e, e)
 	f.Mod(f, P)
 
+	// z is computed first: c may be a, whose y must not be overwritten before
+	t.Mul(a.y, a.z)
+	t.Mod(t, P)
+	c.z.Add(t, t)
+
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
@@ -211,10 +216,6 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	t2.Mod(t2, P)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z)
-	t.Mod(t, P)
-	c.z.Add(t, t)
-
 	pool.Put(A)
 	pool.Put(B)
 	pool.Put(C_)
diff --git a/pairing/twist.go b/pairing/twist.go
index 43364ff..e60386e 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -182,6 +182,10 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	e := newGFp2(pool).Add(t, A)
 	f := newGFp2(pool).Square(e, pool)
 
+	// z is computed first: c may be a, whose y must not be overwritten before
+	t.Mul(a.y, a.z, pool)
+	c.z.Add(t, t)
+
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
@@ -192,9 +196,6 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	t2.Mul(e, c.y, pool)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z, pool)
-	c.z.Add(t, t)
-
 	A.Put(pool)
 	B.Put(pool)
 	C_.Put(pool)
-- 
2.43.0


From 74a1f25f87276432e57d3866ae9cf1b8b8c0e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 05/32] fix: reduce the sparse scalar product into the field

---
 utils/sparsePolynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 6fe136f..0d574f6 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -181,7 +181,7 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 	res = big.NewInt(0)
 	for v := range a.ChannelNodes(true) {
-		res = res.Add(res, f.Mul(v.Value, b[v.Key]))
+		res = f.Add(res, f.Mul(v.Value, b[v.Key]))
 	}
 	return
 }
-- 
2.43.0


From 72d48e0dda6d3f2df242c2959d3a487d191d8cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 06/32] fix: interpolate the sparse constraint columns over the
 gates

---
 circuitcompiler/ER1CS.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 6f8bc28..8e38680 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -127,13 +127,13 @@ func (er1cs *ER1CSsPARSETransposed) ER1CSToEAPSparse() (lPoly, rPoly, ePoly, oPo
 	eT := er1cs.E
 	oT := er1cs.O
 	for i := 0; i < len(lT); i++ {
-		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.WitnessLength))
+		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.NumberOfGates))
 
-		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.WitnessLength))
+		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.NumberOfGates))
 
-		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.WitnessLength))
+		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.NumberOfGates))
 
-		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.WitnessLength))
+		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.NumberOfGates))
 	}
 	return
 }
-- 
2.43.0


From 959f15d8ec0ee2997c101c30546bacf9e3262117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 07/32] fix: divide by a polynomial of higher degree and prove
 single gate programs

---
 utils/polynomialField.go | 3 +++
 zkSNARK/wol19.go         | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index b7dd86d..59da177 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -94,6 +94,9 @@ func (pf PolynomialField) MulSimple(a, b []*big.Int) []*big.Int {
 // Div divides two polinomials over the Finite Field, returning the result and the remainder
 func (pf PolynomialField) Div(a, b []*big.Int) ([]*big.Int, []*big.Int) {
 	// https://en.wikipedia.org/wiki/Division_algorithm
+	if len(a) < len(b) {
+		return []*big.Int{}, a
+	}
 	r := ArrayOfBigZeros(len(a) - len(b) + 1)
 	rem := a
 	for len(rem) >= len(b) {
diff --git a/zkSNARK/wol19.go b/zkSNARK/wol19.go
index e9d5d29..0f1560d 100644
--- a/zkSNARK/wol19.go
+++ b/zkSNARK/wol19.go
@@ -384,9 +384,9 @@ func GenerateProofs(publicInputs int, provingKey *Pk, witnessTrace []*big.Int, P
 		panic("remainder supposed to be 0")
 	}
 
-	var QxDx_div_delta = new(bn256.G1).ScalarMult(provingKey.G1.PowersX_Domain_Delta[0], Qx[0])
+	var QxDx_div_delta = g1ScalarBaseMultiply(big.NewInt(0))
 
-	for i := 1; i < len(Qx); i++ {
+	for i := 0; i < len(Qx); i++ {
 		tmp := new(bn256.G1).ScalarMult(provingKey.G1.PowersX_Domain_Delta[i], Qx[i])
 		QxDx_div_delta.Add(QxDx_div_delta, tmp)
 	}
-- 
2.43.0


From 8bba4981dd11d8cb5f8f31cc8f639be61ab7adbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 08/32] fix: the lexer must stop on every source text

---
 circuitcompiler/lexer.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 72bff75..4bb1817 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -218,12 +218,8 @@ func (l *Lexer) Start() {
 }
 
 func (l *Lexer) StartSync() {
-	// Take half the string length as a buffer size.
-	buffSize := len(l.source) / 2
-	if buffSize <= 0 {
-		buffSize = 1
-	}
-	l.tokens = make(chan Token, buffSize)
+	// nobody receives while we run, so every token the source can contain must fit
+	l.tokens = make(chan Token, len(l.source)+1)
 	l.run()
 }
 
@@ -276,7 +272,9 @@ func (l *Lexer) PeekTwo() string {
 func (l *Lexer) Rewind() {
 	r := l.rewind.pop()
 	if r > EOFRune {
-		size := utf8.RuneLen(r)
+		//an invalid byte is decoded as RuneError with width 1, so the width of the rune
+		//itself does not tell how far Next has moved
+		_, size := utf8.DecodeLastRuneInString(l.source[:l.position])
 		l.position -= size
 		if l.position < l.start {
 			l.position = l.start
@@ -394,6 +392,9 @@ func readCommentLine(l *Lexer) {
 
 func IdentState(l *Lexer) StateFunc {
 	peek := l.Peek()
+	if peek == EOFRune {
+		return nil
+	}
 
 	if isDigit(peek) {
 		return NumberState
@@ -408,6 +409,10 @@ func IdentState(l *Lexer) StateFunc {
 		l.Next()
 		l.Ignore()
 		for l.Peek() != '"' { // we read everything inside " ", used for import
+			if l.Peek() == EOFRune {
+				l.Error("closing \" missing")
+				return nil
+			}
 			l.Next()
 		}
 		l.Emit(IDENTIFIER_VARIABLE)
@@ -438,6 +443,10 @@ func IdentState(l *Lexer) StateFunc {
 
 	//read the next word and push it on stack
 	readIdent(l)
+	if l.Current() == "" {
+		l.Error(fmt.Sprintf("unexpected token %q", peek))
+		return nil
+	}
 
 	if val, ex := keyWordMap[l.Current()]; ex {
 		l.Emit(val)
-- 
2.43.0


From 5d30cfb9c3d12fdc76f86a87ed8d87b6330d5da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 09/32] fix: an if may be the last statement of a body

---
 circuitcompiler/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 9609b68..1fdc9be 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -229,16 +229,16 @@ func (p *Parser) statementMode(tokens []Token) {
 		handeFunc(1, true, IF)
 
 		hasElseIf := false
-		for rest[0].Type == ELSE && rest[1].Type == IF {
+		for len(rest) > 1 && rest[0].Type == ELSE && rest[1].Type == IF {
 			handeFunc(2, true, ELSE)
 			hasElseIf = true
 		}
 
-		if rest[0].Type != ELSE && hasElseIf {
+		if hasElseIf && (len(rest) == 0 || rest[0].Type != ELSE) {
 			p.error("you used else if, so a else at the end is required")
 		}
 
-		if rest[0].Type == ELSE {
+		if len(rest) > 0 && rest[0].Type == ELSE {
 			handeFunc(1, false, ELSE)
 		}
 		p.constraintChan <- &Constraint{Output: Token{Type: IF_ELSE_CHAIN_END}}
-- 
2.43.0


From c92fa52673f16af7b9abeb7b7c64b7dae216af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 10/32] fix: reject a malformed variable declaration

---
 circuitcompiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 1fdc9be..3529bad 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -383,7 +383,7 @@ func (p *Parser) statementMode(tokens []Token) {
 			p.statementMode(r)
 			return
 		}
-		//var a = func(){}
+		p.error("variable declaration expected, got %v", l)
 	case RETURN:
 		//return (1+a)
 		l, r := splitTokensAtFirstString(tokens, "\n")
-- 
2.43.0


From 5db8f026c5d8817011fbdb170c2efa926025a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 11/32] fix: split only accepts a single wire

---
 circuitcompiler/Programm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 5746841..803286b 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -378,7 +378,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			//prepare input number Z
 			arg := currentConstraint.Inputs[0].clone()
 			in, _, _ := currentCircuit.compile(arg, gateCollector)
-			if len(in) != 1 {
+			if len(in) != 1 || in[0].typ.Type == NumberToken || in[0].multiplicative.Cmp(bigOne) != 0 {
 				panic("arguments in split must be pure")
 			}
 
-- 
2.43.0


From b69c3df098b2bf8f3c2eea4810d1a96cfebc2af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 12/32] fix: no common factor can be moved out of an addition
 gate

---
 circuitcompiler/Programm.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 803286b..afc82be 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -443,11 +443,10 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			rightClone := currentConstraint.Inputs[1].clone()
 			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
 			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
-			commonExtracted, extractedLeft, extractedRight := extractConstant(leftFactors, rightFactors)
 
 			rootGate := &Gate{
 				gateType: additionGate,
-				leftIns:  addFactors(extractedLeft, extractedRight),
+				leftIns:  addFactors(leftFactors, rightFactors),
 			}
 
 			nTok := Token{
@@ -461,7 +460,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}}
 			fres := factor{
 				typ:            nTok,
-				multiplicative: commonExtracted,
+				multiplicative: bigOne,
 			}
 			return factors{fres}, false, function{}
 		case "scalarBaseMultiply":
-- 
2.43.0


From 819b14bd508086f6f7eca6c5c325efa7e5d98420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 13/32] fix: a factor can be multiplied by zero

---
 circuitcompiler/factorHandling.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index c747e71..1a54fb4 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -61,6 +61,9 @@ func extractGCD(f factors) (factors, *big.Int) {
 	for i := 1; i < len(f); i++ {
 		gcd = new(big.Int).GCD(nil, nil, f[i].multiplicative, gcd)
 	}
+	if gcd.Sign() == 0 {
+		return f, big.NewInt(1)
+	}
 	for i := 0; i < len(f); i++ {
 		f[i].multiplicative = new(big.Int).Div(f[i].multiplicative, gcd)
 
-- 
2.43.0


From ea86e46c5386f850fd4acb2cb68d67b80007cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 14/32] fix: a constant in a sparse constraint belongs to the
 one signal

---
 circuitcompiler/Programm.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index afc82be..bc12018 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -889,8 +889,12 @@ func (p *Program) GatesToSparseR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS
 			}
 		}
 		value := val.multiplicative
-		//not that index is 0 if its a constant, since 0 is the map default if no entry was found
-		arr.Put(uint(indexMap[val.typ.Identifier]), value, utils.Field.ArithmeticField.Add)
+		//a constant belongs to index 0, its digits may well be the identifier of a gate
+		index := 0
+		if val.typ.Type != NumberToken {
+			index = indexMap[val.typ.Identifier]
+		}
+		arr.Put(uint(index), value, utils.Field.ArithmeticField.Add)
 	}
 
 	for _, g := range mGates {
-- 
2.43.0


From a92607d20ccb7dc3ff26590a80a4782413aff86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 15/32] fix: public inputs must be unique

---
 circuitcompiler/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 3529bad..9b7acfa 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -82,6 +82,11 @@ out:
 			//fmt.Println(constraint)
 			if constraint.Output.Type == PUBLIC {
 				a := p.GetMainCircuit().resolveArrayName(constraint)
+				for _, v := range p.PublicInputs {
+					if v == a {
+						panic(fmt.Sprintf("public input %v is not unique", a))
+					}
+				}
 				p.PublicInputs = append(p.PublicInputs, a)
 			}
 			if checkSemantics {
-- 
2.43.0


From b1406cb378847aba53229b53b9c01d46e4ed30ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 16/32] fix: draw random elements from the entire field

---
 utils/finiteField.go | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 67bb2ae..3ed5e8c 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -197,23 +197,8 @@ func BigIsOdd(n *big.Int) bool {
 }
 
 func (fq Fq) Rand() (*big.Int, error) {
-
-	// twoexp := new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(maxbits)), nil)
-	// maxInt := new(big.Int).Sub(twoexp, big.NewInt(1))
-	//rand
-	maxbits := fq.Q.BitLen()
-	b := make([]byte, (maxbits/8)-1)
-	// b := make([]byte, 3)
-	// b := make([]byte, 3)
-	_, err := rand.Read(b)
-	if err != nil {
-		return nil, err
-	}
-	r := new(big.Int).SetBytes(b)
-	rq := new(big.Int).Mod(r, fq.Q)
-
-	// return r over q, nil
-	return rq, nil
+	//uniform over the entire field
+	return rand.Int(rand.Reader, fq.Q)
 }
 
 func (fq Fq) IsZero(a *big.Int) bool {
-- 
2.43.0


From d2eef398aa2e13658e485b7799d168542b397d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 17/32] fix: do not modify a tree while its nodes are traversed

---
 utils/sparsePolynomial.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 0d574f6..3a9da43 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -20,11 +20,11 @@ func (fq Fq) MulSparse(a, b *AvlTree) *AvlTree {
 
 // Mul multiplies a sparse polynomail with a scalar over the Finite Field
 func (fq Fq) MulSparseScalar(a *AvlTree, scalar *big.Int) *AvlTree {
-	a = a.Clone()
+	r := NewAvlTree()
 	for L := range a.ChannelNodes(true) {
-		a.Put(L.Key, scalar, fq.Mul)
+		r.Put(L.Key, fq.Mul(L.Value, scalar), fq.Add)
 	}
-	return a
+	return r
 }
 
 type Entry struct {
@@ -187,10 +187,11 @@ func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 }
 
 func (f Fq) Combine(a *AvlTree, w []*big.Int) (scaledPolynomial *AvlTree) {
+	scaledPolynomial = NewAvlTree()
 	for v := range a.ChannelNodes(true) {
-		a.Put(v.Key, w[v.Key], f.Mul)
+		scaledPolynomial.Put(v.Key, f.Mul(v.Value, w[v.Key]), f.Add)
 	}
-	return a
+	return scaledPolynomial
 }
 
 //
-- 
2.43.0


From 6b38f439285836ab8fd5719be050bc487337aeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 18/32] fix: sparse division stops when the remainder is zero

---
 utils/sparsePolynomial.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 3a9da43..9eb59f4 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -36,8 +36,12 @@ type Entry struct {
 func (fq Fq) DivideSparse(a, b *AvlTree) (result, rem *AvlTree) {
 	result = NewAvlTree()
 	rem = a.Clone()
-	maxA, maxB := rem.MaxNode(), b.MaxNode()
-	for ; maxA != nil && maxB != nil && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
+	if b.Root() == nil {
+		panic("division by the zero polynomial")
+	}
+	maxB := b.MaxNode()
+	for rem.Root() != nil && rem.MaxNode().Key() >= maxB.Key() {
+		maxA := rem.MaxNode()
 		l := fq.Div(maxA.Value(), maxB.Value())
 		pos := maxA.Key() - maxB.Key()
 		aux := NewAvlTree()
-- 
2.43.0


From 2c205ae86e72005ccb71084533a77af22a9e830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 19/32] fix: gfP12 scaling and conjugation must use and return
 the right element

---
 pairing/gfp12.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pairing/gfp12.go b/pairing/gfp12.go
index f084edd..83b2b95 100644
--- a/pairing/gfp12.go
+++ b/pairing/gfp12.go
@@ -67,7 +67,7 @@ func (e *gfP12) IsOne() bool {
 func (e *gfP12) Conjugate(a *gfP12) *gfP12 {
 	e.x.Negative(a.x)
 	e.y.Set(a.y)
-	return a
+	return e
 }
 
 func (e *gfP12) Negative(a *gfP12) *gfP12 {
@@ -125,8 +125,8 @@ func (e *gfP12) Mul(a, b *gfP12, pool *bnPool) *gfP12 {
 }
 
 func (e *gfP12) MulScalar(a *gfP12, b *gfP6, pool *bnPool) *gfP12 {
-	e.x.Mul(e.x, b, pool)
-	e.y.Mul(e.y, b, pool)
+	e.x.Mul(a.x, b, pool)
+	e.y.Mul(a.y, b, pool)
 	return e
 }
 
-- 
2.43.0


From ef3992c71a2c8a4568ea8a406f5d3a9b309ba6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 20/32] fix: a twist point can be negated in place

---
 pairing/twist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pairing/twist.go b/pairing/twist.go
index e60386e..1a92b9c 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -257,8 +257,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
 	c.x.Set(a.x)
-	c.y.SetZero()
-	c.y.Sub(c.y, a.y)
+	c.y.Negative(a.y)
 	c.z.Set(a.z)
 	c.t.SetZero()
 }
-- 
2.43.0


From 4af5cc60f64f8018cdea227dcf2d7e7faa0cbe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 21/32] fix: an if body may contain further ifs

---
 circuitcompiler/circuit.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index b64bbd5..ba77ac9 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -488,9 +488,17 @@ func (from Token) primitiveReturnfunction() (gives *function) {
 
 func splitAtIfEnd(cs []*Constraint) (inside, outside []*Constraint) {
 
+	//the body of an if may contain further if-else chains
+	depth := 0
 	for i, v := range cs {
+		if v.Output.Type == IF {
+			depth++
+		}
 		if v.Output.Type == IF_ELSE_CHAIN_END {
-			return cs[:i], cs[i:]
+			depth--
+			if depth == 0 {
+				return cs[:i], cs[i:]
+			}
 		}
 	}
 	panic("unexpected reach")
-- 
2.43.0


From 29727b81e9360f5adb697c7b45333b41c9f6dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 22/32] fix: a return inside a loop leaves the function

---
 circuitcompiler/Programm.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index bc12018..dafb83f 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -259,13 +259,12 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 	case FOR:
 		//we check the condition each time we rerun the loop
 		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
-			content := &Constraint{
-				Output: Token{
-					Type:       FUNCTION_CALL,
-					Identifier: currentConstraint.Output.Identifier,
-				},
+			body, ex := currentCircuit.findFunctionInBloodline(currentConstraint.Output.Identifier)
+			if !ex {
+				panic(fmt.Sprintf("function %s not declared", currentConstraint.Output.Identifier))
 			}
-			f, retu, fkt := currentCircuit.compile(content, gateCollector)
+			//a return inside the body leaves the loop and the function around it
+			f, retu, fkt := body.flatCopy().execute(gateCollector)
 			if retu {
 				return f, true, fkt
 			}
-- 
2.43.0


From 16715849828c5a184fae4060618220429df2c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 23/32] fix: the bits of a split variable can be accessed

---
 circuitcompiler/Programm.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index dafb83f..b64be0b 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -392,6 +392,18 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			// Z_0 is the lsb
 			sum := make([]factor, N)
 
+			//the bits are accessed like the elements of an array which carries the name of the split variable
+			name, context := "", (*function)(nil)
+			switch arg.Output.Type {
+			case IDENTIFIER_VARIABLE:
+				name = arg.Output.Identifier
+			case ARRAY_CALL:
+				name = currentCircuit.resolveArrayName(arg)
+			}
+			if name != "" {
+				context, _ = currentCircuit.getCircuitContainingFunctionInBloodline(name)
+			}
+
 			for i := 0; i < N; i++ {
 				nTok := Token{
 					Type: ARGUMENT,
@@ -409,8 +421,9 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 					typ:            nTok,
 					multiplicative: new(big.Int).Lsh(bigOne, uint(i)),
 				}
-				// we need to add the bits during precompilations so we can access them like from an array
-				//	currentCircuit.constraintMap
+				if context != nil {
+					context.constraintMap[fmt.Sprintf("%v[%v]", name, i)] = &Constraint{Output: nTok}
+				}
 			}
 			//add the sum constraint \sum Z_i 2^i = Z to ensure that the Zi are the bit representation of Z
 
-- 
2.43.0


From c207a1d3728e95286891ffa1416d5618a07debc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 24/32] fix: an operand without a value is rejected

---
 circuitcompiler/Programm.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index b64be0b..787c4ab 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -219,6 +219,15 @@ func (currentCircuit *function) execute(gateCollector *gateContainer) (facs fact
 	return nil, false, function{}
 }
 
+//compileOperand compiles a part of an expression. A function which still misses arguments, or returns nothing, is no value
+func (currentCircuit *function) compileOperand(c *Constraint, gateCollector *gateContainer) factors {
+	facs, _, _ := currentCircuit.compile(c, gateCollector)
+	if len(facs) == 0 {
+		panic(fmt.Sprintf("%v has no value", c.Output.Identifier))
+	}
+	return facs
+}
+
 //recursively walks through the parse tree to create a list of all
 //multiplication gates needed for the QAP construction
 //Takes into account, that multiplication with constants and addition (= substraction) can be reduced, and does so
@@ -453,8 +462,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}
 			leftClone := currentConstraint.Inputs[0].clone()
 			rightClone := currentConstraint.Inputs[1].clone()
-			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
-			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
+			leftFactors := currentCircuit.compileOperand(leftClone, gateCollector)
+			rightFactors := currentCircuit.compileOperand(rightClone, gateCollector)
 
 			rootGate := &Gate{
 				gateType: additionGate,
@@ -479,7 +488,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			if len(currentConstraint.Inputs) != 1 {
 				panic("scalarBaseMultiply argument missmatch")
 			}
-			exponentInputFactors, _, _ := currentCircuit.compile(currentConstraint.Inputs[0], gateCollector)
+			exponentInputFactors := currentCircuit.compileOperand(currentConstraint.Inputs[0], gateCollector)
 
 			rootGate := &Gate{
 				gateType: scalarBaseMultiplyGate,
@@ -498,8 +507,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}
 			leftClone := currentConstraint.Inputs[0].clone()
 			rightClone := currentConstraint.Inputs[1].clone()
-			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
-			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
+			leftFactors := currentCircuit.compileOperand(leftClone, gateCollector)
+			rightFactors := currentCircuit.compileOperand(rightClone, gateCollector)
 
 			rootGate := &Gate{
 				gateType:    equalityGate,
@@ -563,8 +572,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		case ArithmeticOperatorToken:
 			switch operation.Identifier {
 			case "*":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileOperand(left, gateCollector)
+				rightFactors = currentCircuit.compileOperand(right, gateCollector)
 
 				if leftFactors.isSingleNumber() || rightFactors.isSingleNumber() {
 					return mulFactors(leftFactors, rightFactors), currentConstraint.Output.Type == RETURN, function{}
@@ -585,8 +594,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				f := factor{typ: nTok, multiplicative: commonFactor}
 				return factors{f}, currentConstraint.Output.Type == RETURN, function{}
 			case "/":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileOperand(left, gateCollector)
+				rightFactors = currentCircuit.compileOperand(right, gateCollector)
 
 				if rightFactors.isSingleNumber() { // (x1+x2..)/6
 					return mulFactors(leftFactors, invertFactors(rightFactors)), currentConstraint.Output.Type == RETURN, function{}
@@ -609,14 +618,14 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				f := factor{typ: nTok, multiplicative: commonF}
 				return factors{f}, currentConstraint.Output.Type == RETURN, function{}
 			case "+":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileOperand(left, gateCollector)
+				rightFactors = currentCircuit.compileOperand(right, gateCollector)
 				addedFactors := addFactors(leftFactors, rightFactors)
 				return addedFactors, currentConstraint.Output.Type == RETURN, function{}
 
 			case "-":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileOperand(left, gateCollector)
+				rightFactors = currentCircuit.compileOperand(right, gateCollector)
 				rightFactors = negateFactors(rightFactors)
 				addedFactors := addFactors(leftFactors, rightFactors)
 				return addedFactors, currentConstraint.Output.Type == RETURN, function{}
-- 
2.43.0


From f7b32fee5d23b9d7a339b1e9cad4de4c8ead680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 25/32] fix: an else takes no condition

---
 circuitcompiler/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 9b7acfa..7002708 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -221,6 +221,8 @@ func (p *Parser) statementMode(tokens []Token) {
 			IfConst := &Constraint{Output: Token{Type: typ}}
 			if pareseExpression {
 				p.parseExpression(condition[skip:], IfConst)
+			} else if len(condition) != skip {
+				p.error("'{' expected, got %v", condition[skip])
 			}
 			condition, rest, success = splitAtClosingSwingBrackets(rest)
 			if !success {
-- 
2.43.0


From ccd42479508c440e88bc8d45b088957ae3642439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 26/32] fix: a division by the constant zero is rejected

---
 circuitcompiler/Programm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 787c4ab..79d6547 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -598,6 +598,9 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				rightFactors = currentCircuit.compileOperand(right, gateCollector)
 
 				if rightFactors.isSingleNumber() { // (x1+x2..)/6
+					if rightFactors[0].multiplicative.Sign() == 0 {
+						panic("division by zero")
+					}
 					return mulFactors(leftFactors, invertFactors(rightFactors)), currentConstraint.Output.Type == RETURN, function{}
 				}
 
-- 
2.43.0


From 65640f22a797a0996cf71d70f86e423a707f21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 27/32] fix: public inputs must be inputs of main

---
 circuitcompiler/circuit.go | 10 ++++++++++
 circuitcompiler/parser.go  |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index ba77ac9..e83ea03 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -261,6 +261,16 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 	currentCircuit.preCompile(constraintStack[1:])
 }
 
+//takes tells if the function has an input of the given name
+func (circ *function) takes(name string) bool {
+	for _, v := range circ.Inputs {
+		if v == name {
+			return true
+		}
+	}
+	return false
+}
+
 func (circ *function) contextCheckInputs(constraint *Constraint) {
 	for i := 0; i < len(constraint.Inputs); i++ {
 		circ.contextCheck(constraint.Inputs[i])
diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 7002708..b6ad448 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -99,6 +99,14 @@ out:
 
 	//p = newProgram(big.NewInt(1993), big.NewInt(1993))
 	p.globalFunction.preCompile(constraintStack)
+	if checkSemantics {
+		//the first public input is the one signal
+		for _, v := range p.PublicInputs[1:] {
+			if !p.GetMainCircuit().takes(v) {
+				panic(fmt.Sprintf("public input %v is no input of main", v))
+			}
+		}
+	}
 	return p
 }
 
-- 
2.43.0


From 8f4ccdfa1da8ef511adccdf08f41ec09dea944f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:49 +0000
Subject: [PATCH 28/32] fix: a statement outside of a function is rejected

---
 circuitcompiler/circuit.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index e83ea03..daacaec 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -75,6 +75,14 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 	}
 	currentConstraint := constraintStack[0]
 
+	if currentCircuit.Context == nil {
+		//only the statements of a function are ever executed
+		switch currentConstraint.Output.Type {
+		case IF, FOR, VARIABLE_OVERLOAD, FUNCTION_CALL, RETURN:
+			panic("statement outside of a function")
+		}
+	}
+
 	switch currentConstraint.Output.Type {
 	case PUBLIC:
 		if currentCircuit.Name != "main" {
-- 
2.43.0


From d4f9369a8b9cc5aa9f669083dec667759822bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:27 +0000
Subject: [PATCH 29/32] fix: brackets must match

---
 circuitcompiler/parser.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index b6ad448..bc94a63 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -653,12 +653,34 @@ func (p *Parser) stackAllTokens() []Token {
 	for tok := p.nextToken(); tok.Type != EOF; tok = p.nextToken() {
 		stack = append(stack, *tok)
 	}
+	p.checkBrackets(stack)
 	stack = append(stack, Token{
 		Type: EOF,
 	})
 	return stack
 }
 
+//checkBrackets fails unless every bracket is closed by a bracket of its kind
+func (p *Parser) checkBrackets(in []Token) {
+	closing := map[string]string{"(": ")", "[": "]", "{": "}"}
+	var expected []string
+	for _, tok := range in {
+		switch tok.Identifier {
+		case "(", "[", "{":
+			expected = append(expected, closing[tok.Identifier])
+		case ")", "]", "}":
+			if len(expected) == 0 || expected[len(expected)-1] != tok.Identifier {
+				p.error("unexpected bracket %v", tok.Identifier)
+				return
+			}
+			expected = expected[:len(expected)-1]
+		}
+	}
+	if len(expected) != 0 {
+		p.error("bracket %v missing", expected[len(expected)-1])
+	}
+}
+
 func (p *Parser) stackTillBreak() []Token {
 	var stack []Token
 	for tok := p.nextToken(); tok.Identifier != "\n" || tok.Type == EOF; tok = p.nextToken() {
-- 
2.43.0


From 8e42a024f5a4d200773f5596cf119e8e6f9eab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:49 +0000
Subject: [PATCH 30/32] fix: witness calculation refuses values for names that
 are no inputs

---
 circuitcompiler/ER1CS.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 8e38680..2a81616 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -162,8 +162,13 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 	}
 
 	for _, v := range input {
-		setWitness(r1cs.indexMap[v.identifier], v.value)
-		set[r1cs.indexMap[v.identifier]] = true
+		index, known := r1cs.indexMap[v.identifier]
+		//position 0 is reserved for the constant one
+		if !known || index == 0 {
+			return nil, errors.New(fmt.Sprintf("%v is no input of the program", v.identifier))
+		}
+		setWitness(index, v.value)
+		set[index] = true
 	}
 
 	//inverseSplitmap maps each bit index onto (bitposition,positionOfFather)
@@ -314,8 +319,13 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 	}
 
 	for _, v := range input {
-		witness[r1cs.indexMap[v.identifier]] = v.value
-		set[r1cs.indexMap[v.identifier]] = true
+		index, known := r1cs.indexMap[v.identifier]
+		//position 0 is reserved for the constant one
+		if !known || index == 0 {
+			return nil, errors.New(fmt.Sprintf("%v is no input of the program", v.identifier))
+		}
+		witness[index] = v.value
+		set[index] = true
 	}
 
 	//inverseSplitmap maps each bit index onto (bitposition,positionOfFather)
-- 
2.43.0


From b97aff875ba7e5a282824039128eb389fc80753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 31/32] fix: the constant one may be given its value explicitly

---
 circuitcompiler/ER1CS.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 2a81616..8fede26 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -164,7 +164,7 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 	for _, v := range input {
 		index, known := r1cs.indexMap[v.identifier]
 		//position 0 is reserved for the constant one
-		if !known || index == 0 {
+		if !known || index == 0 && v.value.Cmp(bigOne) != 0 {
 			return nil, errors.New(fmt.Sprintf("%v is no input of the program", v.identifier))
 		}
 		setWitness(index, v.value)
@@ -321,7 +321,7 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 	for _, v := range input {
 		index, known := r1cs.indexMap[v.identifier]
 		//position 0 is reserved for the constant one
-		if !known || index == 0 {
+		if !known || index == 0 && v.value.Cmp(bigOne) != 0 {
 			return nil, errors.New(fmt.Sprintf("%v is no input of the program", v.identifier))
 		}
 		witness[index] = v.value
-- 
2.43.0


From c14c0d575bf753d9a672a32108abc194c10e7b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:50 +0000
Subject: [PATCH 32/32] fix: executing a program leaves it as it was parsed

---
 circuitcompiler/Programm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 79d6547..5ce8bf6 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -183,7 +183,8 @@ func (currentCircuit *function) resolveArrayName(c *Constraint) string {
 func (p *Program) Execute() (orderedmGates []*Gate) {
 
 	container := newGateContainer()
-	mainCircuit := p.GetMainCircuit()
+	//assignments change the function they are executed in. the program itself stays as it was parsed
+	mainCircuit := p.GetMainCircuit().flatCopy()
 
 	for i := 0; i < mainCircuit.taskStack.len(); i++ {
 		f, returns, _ := mainCircuit.compile(mainCircuit.taskStack.data[i], container)
-- 
2.43.0

