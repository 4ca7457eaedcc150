CONSTANT Deep = FALSE
