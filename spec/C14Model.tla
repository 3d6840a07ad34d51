------------------------------ MODULE C14Model ------------------------------
(* The complete reachable state graph of the configuration over a domain of *)
(* valid and invalid values; every transition is printed with a shortest    *)
(* history that leads to it.                                                *)
EXTENDS PsfConfig, TLC, Json
VARIABLES c, hist
State == c

Win(t, L, f) == Seq_(t, <<Str_("x_0"), Str_("y_0"), L, f>>)
NWin(t, L, f) == Seq_(t, <<Float_("3.4"), Int_(2), L, f>>)
OsVals == {None_, Int_(1), Int_(2), Int_(3), Int_(4), Int_(6), Int_(0), Int_(-2), Float_("2.0"), Str_("4"),
           Win("tuple", Int_(4), Int_(6)), Win("list", Int_(3), Int_(4)), NWin("tuple", Int_(2), Int_(1)),
           NWin("list", Int_(2), Int_(3)), NWin("tuple", Int_(2), Int_(0)), NWin("tuple", Int_(2), Int_(-4)),
           NWin("list", Float_("2.0"), Int_(4)), NWin("tuple", Int_(2), Float_("4.0")),
           Seq_("tuple", <<Int_(1), Int_(2), Int_(2)>>), Seq_("list", <<Int_(1), Int_(2), Int_(2), Int_(2), Int_(2)>>),
           Seq_("tuple", <<>>)}
PoVals == {None_, Int_(1), Int_(2), Int_(3), Int_(4), Int_(0), Int_(-1), Float_("2.0"), Str_("2"),
           Seq_("tuple", <<Int_(2)>>)}
PsfVals == {None_, Py("psf", 1, "norm", <<>>), Py("psf", 2, "unnorm", <<>>), Py("psf", 3, "dim", <<>>),
            Py("psf", 4, "slightly", <<>>), Py("psf", 5, "norm-rounded", <<>>)}
Acts == [op : {"oversample"}, x : OsVals] \cup [op : {"psf_oversample"}, x : PoVals] \cup [op : {"psf"}, x : PsfVals]

Init == c = [os |-> None_, po |-> None_, psf |-> None_] /\ hist = <<>>
Next == \E a \in Acts :
          /\ PrintT(<<"CASE", ToJson(Append(hist, a))>>)
          /\ c' = Assign(c, a)
          /\ hist' = Append(hist, a)
AlwaysValid == Valid(c)
New == \A os \in OsVals, po \in PoVals, psf \in PsfVals :
         PrintT(<<"NEW", ToJson([os |-> os, po |-> po, psf |-> psf])>>)
ASSUME New
=============================================================================
