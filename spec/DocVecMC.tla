---- MODULE DocVecMC ----
EXTENDS DocVec
VecNewTexts == {<<>>, <<"b">>, <<"e4", "nl">>}
====
