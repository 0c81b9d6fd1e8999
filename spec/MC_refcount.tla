---- MODULE MC_refcount ----
EXTENDS RefCount
TheSeeds == {<<h, l>> : h \in {0, 1, 127, 128, 255, 256, 32767, 32768, 65535}, l \in {0, 1, 2, 3, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65533, 65534, 65535}}
====
