---- MODULE MCLandscapes ----
EXTENDS Landscapes
W == { <<"t", <<a, b>>>> : a \in {-2, 0, 3}, b \in {0, 1} }
     \cup { <<"m", m>> : m \in { <<<<0, -1>>, <<1, 0>>>>, <<<<-1, 0>>, <<0, 1>>>>, <<<<1, 2>>, <<0, 1>>>>, <<<<0, 1>>, <<1, 0>>>> } }
     \cup { <<"s", -4, 4>>, <<"s", 0, 8>>, <<"s", -2, 14>> }
P == { <<a, b>> : a \in -3..3, b \in -3..3 }
BB == <<-8, 8>>
====
