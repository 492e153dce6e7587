// input files: a file is the sequence of its bytes
pub open spec fn bytes(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < 256 }
pub open spec fn is_stdin(p: Seq<int>) -> bool { p.len() == 0 || p == @"-" }
// what is read from the file of that name (or from standard input)
pub uninterp spec fn file_text(p: Seq<int>) -> Seq<int>;
// whether the file can be opened for reading
pub uninterp spec fn opens(p: Seq<int>) -> bool;
