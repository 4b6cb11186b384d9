---------------------------- MODULE MCFlatPacket ----------------------------
EXTENDS FlatPacket
MCTexts == {<<>>, <<1, 2>>}
MCPays == {<<>>, <<0, 5>>}
=============================================================================
