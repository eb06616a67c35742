---- MODULE DocSyncMC ----
EXTENDS DocSync
McNewTexts == {<<>>, <<"b">>, <<"e2", "nl">>}
====
