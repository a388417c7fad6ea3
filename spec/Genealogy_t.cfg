SPECIFICATION Spec
CONSTANTS Genomes = {1, 2}  MaxInds = 4
INVARIANTS Fresh UniqueIds LineageKnown
PROPERTIES Bystanders Effects
