// makes the compiler accept declarations without bodies
