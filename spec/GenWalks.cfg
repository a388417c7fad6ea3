CONSTANTS
 Goals = {1, 2, 3, 4, 5, 9}
INIT Init
NEXT Next
