------------------------------- MODULE P18MC --------------------------------
EXTENDS P18Model
QShapes == {<<2, 1, 2, 2, 1, 1>>, <<3, 2, 2, 1, 2, 1>>, <<2, 2, 3, 1, 1, 1>>, <<3, 2, 2, 3, 0, 1>>, <<1, 1, 3, 2, 2, 2>>}
QScripts == [1..3 -> 0..1]
TShapes == QShapes \cup {<<4, 2, 3, 2, 3, 2>>, <<3, 1, 2, 2, 1, 1>>, <<2, 1, 3, 4, 2, 1>>, <<1, 1, 4, 1, 1, 1>>}
TScripts == [1..4 -> 0..1] \cup [1..3 -> 0..2]
=============================================================================
