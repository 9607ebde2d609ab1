// The verified classes keep their parameters in private members that only MISO's
// input machinery sets; the harnesses set them directly (access only: neither the
// layout nor the code of the classes changes).
#include <any>
#include <algorithm>
#include <cmath>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <fstream>
#include <numeric>
#include <random>
#include <iomanip>
#include <array>
#include <deque>
#include "mfem.hpp"
#include "nlohmann/json.hpp"
#define private public
