---- MODULE MC_storage ----
EXTENDS Storage
====
