# Ghost state used by the verifier itself.
ghost held(ref) int
ghost released(ref) bool
uf hexenc(seq) seq

# lower-case hexadecimal
uf hexf(seq) seq
uf unhex(seq) seq
axiom forall b: seq {hexf(b)} :: len(hexf(b)) == 2 * len(b) && unhex(hexf(b)) == b
axiom forall b: seq, i: int {hexf(b)[i]} :: 0 <= i && i < len(hexf(b)) ==> hexf(b)[i] != 43
# mark(x): true; makes the prover consider x
uf mark(int) bool
axiom forall x: int {mark(x)} :: mark(x)

# parts of a JSON document, by name; the program config last decoded
uf jsonseq(seq, seq) seq
uf jsonint(seq, seq) int
uf jsonlen(seq, seq) int
uf jsonelem(seq, seq, int) seq
ghost k_cdata(int) seq
# contents of local files as written and read by this process
ghost k_disk(int, seq) seq
