---- MODULE MC_cr_int ----
EXTENDS Create
mOver == -1
====
