/* stands in for the CUDA driver header; everything the kernels need is in emu.hh */
