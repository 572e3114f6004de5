# File header codec (gocrypt/contentenc/file_header.go)
define okhdr(s) = len(s) == 18 && s[0] == 0 && s[1] == 2 && sub(s, 2, 16) != zeros(16)

func contentenc.ParseHeader | buf -> h err
  modifies nothing
  nopanic[C06,C07]
  ensures[C06,C01,C03,C07] "accepts exactly the valid headers" (err == nil) == okhdr(bytes(buf))
  ensures[C06,C01,C03,C07] "version and ID" err == nil ==> h != nil && fresh(h) && h.Version == 2 && bytes(h.ID) == sub(bytes(buf), 2, 16) && h.ID != nil
  ensures[C01,C03,C07] "a bad header is not an end of file" err != extglobal("io.EOF")
  ensures[C06] "no header on failure" err != nil ==> h == nil

func (*contentenc.FileHeader).Pack | h -> r
  requires h != nil
  modifies nothing
  panics_if[C06] len(h.ID) != 16 || h.Version != 2
  ensures[C06] "version then ID, big endian" bytes(r) == be16(2) + bytes(h.ID)
  ensures[C06] "packed length" len(r) == 18

lemma[C06] "parsing what was packed" forall id: seq :: len(id) == 16 && id != zeros(16) ==> okhdr(be16(2) + id) && sub(be16(2) + id, 2, 16) == id

func contentenc.RandomHeader | -> h
  modifies anything
  ensures[C06] "new headers have the current format" h != nil && h.Version == 2 && len(h.ID) == 16
