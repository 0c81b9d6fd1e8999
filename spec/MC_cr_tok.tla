---- MODULE MC_cr_tok ----
EXTENDS Create
mOver == 7
====
