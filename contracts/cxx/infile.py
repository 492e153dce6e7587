# open_file.hpp: reading files
deps("base")
