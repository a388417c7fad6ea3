SPECIFICATION Spec
CONSTANTS Vals <- ModelVals  NO = 2  NP = 3
INVARIANTS SizeConstant NoInvention Reached SomeTruncation ElitesNeverLost FastAgrees CheapIsSound
PROPERTIES SlotsNeverWorsen
