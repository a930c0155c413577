----------------------------- MODULE WeightsMC -----------------------------
EXTENDS Weights
MCGeometries == {<<2, 1, 2>>, <<3, 2, 1>>, <<1, 3, 1>>, <<2, 2, 1>>}
Wide == {<<2, 1, 3>>, <<5, 1, 1>>, <<1, 2, 3>>, <<1, 3, 2>>}
=============================================================================
