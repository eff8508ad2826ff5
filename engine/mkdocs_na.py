# properties that contracts on the code cannot decide here
na('C14','Translated site loops compute what the source loop says','For every site loop in the accepted subset, the C++ code that hilapp generates visits exactly the sites of the parity, reads neighbours only after their halo is current, marks what it assigns as changed and gives each reduction every site once, for the CPU, vectorised and GPU targets alike.',['programs','configurations'],'all site loops of the accepted subset and all targets','a test translates a fixed set of programs',['hilapp/src/toplevelvisitor.cpp','hilapp/src/codegen.cpp'],[('handle_loops, codegen','hilapp/src/codegen.cpp')],'hilapp works on the abstract syntax trees of the clang libraries: contracts on its functions would have to specify those libraries and the semantics of C++. What the generated calls rely on at run time is proved in C08, C10, C11 and C13.')
na('C15','Field FFT is the discrete Fourier transform and its inverse','Field::FFT over any subset of directions, node division and lattice size equals the defining sum, and the back transform of a transform gives the field times the number of points.',['inputs','configurations'],'all lattice sizes, divisions and directions','tests compare a few lattices',[PL+'fft.h',PL+'fft.cpp',PL+'fft_fftw_transform.h'],[('FFT_field, hila_fft','libraries/plumbing/fft.h')],'the transform itself is done by the external library FFTW; the pencil redistribution around it consists of nested containers and all-to-all messages whose data flow only has a meaning over all ranks together, beyond contracts on single functions in this verifier.')
na('C16','Fields and configurations read back as written','write followed by read restores every element of a field for any node division on either side, also across formats, and damaged headers are refused.',['inputs','configurations','fault_sequences'],'all fields, divisions and file states','tests write and read whole fields on one division',[PL+'field_io.h','libraries/plumbing/gaugefield.h'],[('Field::write, Field::read','libraries/plumbing/field_io.h')],'the guarantee is about iostreams and the file system, which no contract here can observe; an assumed model of both would carry the whole argument.')
na('C17','Input files are parsed as documented and wrong ones stop the run','hila::input returns the value that follows each key on rank 0 to all ranks, and missing keys, wrong types or trailing text end the run on all ranks.',['inputs'],'all input texts','tests parse a few lines',[PL+'input.h',PL+'input.cpp'],[('input::get, read_key','libraries/plumbing/input.cpp')],'string and stream parsing in the C++ standard library is outside the subset the verifier interprets.')
