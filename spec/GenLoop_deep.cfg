CONSTANT Deep = TRUE
