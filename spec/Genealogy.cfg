SPECIFICATION Spec
CONSTANTS Genomes = {1, 2}  MaxInds = 3
INVARIANTS Fresh UniqueIds LineageKnown
PROPERTIES Bystanders Effects
