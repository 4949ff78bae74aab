------------------------------- MODULE SetupMC -------------------------------
EXTENDS Setup
AllLibs == {"none", "dironly", "dbonly", "catalog", "library", "broken"}
AllRoots == {"default", "olddir", "newdir"}
AllNames == {"default", "plain"}
=============================================================================
