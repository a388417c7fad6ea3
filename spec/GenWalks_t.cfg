CONSTANTS
 Goals = {1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 41, 60}
INIT Init
NEXT Next
