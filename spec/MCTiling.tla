------------------------------ MODULE MCTiling ------------------------------
EXTENDS Tiling
=============================================================================
