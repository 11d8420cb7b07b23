// PLACE_CODE at the line PLACE_LINE of the file PLACE_FILE, as far as the compiler is told.
#line PLACE_LINE PLACE_FILE
PLACE_CODE
