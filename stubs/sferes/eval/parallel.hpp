#include <sferes/stub.hpp>
