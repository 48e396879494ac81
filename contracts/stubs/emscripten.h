/* stand-in for the emscripten SDK header (no declaration of it is used) */
