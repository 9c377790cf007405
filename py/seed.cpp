// Every random generator of the code under test starts from the same state.
#include <random>
unsigned std::random_device::_M_getval() { return 2463534242u; }
