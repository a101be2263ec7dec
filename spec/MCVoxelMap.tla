------------------------------- MODULE MCVoxelMap -------------------------------
EXTENDS VoxelMap
P3 == {<<0, 0, 0>>, <<1, 0, 0>>, <<-1, 0, 0>>}
P4 == {<<0, 0, 0>>, <<2, 0, 0>>, <<-1, 0, 0>>, <<4, 0, 0>>}
P2 == {<<1, 0, 0>>, <<-3, 0, 0>>}
=============================================================================
