// Assumed contract of the random number generator inside algebra proofs: any real number
// (uniform deviates in [0,1)). The generator itself lives in random.cpp (property R01).
#ifndef RND_H_
#define RND_H_
namespace hila {
double random() { double x = v::any<double>("rnd"); v::require(x >= 0 && x < 1); return x; }
double gaussrand() { return v::any<double>("gauss"); }
double gaussrand2(double &o) { o = v::any<double>("gauss"); return v::any<double>("gauss"); }
}
#endif
