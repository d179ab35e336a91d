/* the functions of the expression language: name, number of required and optional (< 0: any number of) arguments, number of named ones, categories */
#define FUNCTABLE \
  {"+", 2, 0, 2, 0, "/math/operator/arithmetic /string/operator "}, \
  {"-", 2, 0, 2, 0, "/math/operator/arithmetic "}, \
  {"*", 2, 0, 2, 0, "/math/operator/arithmetic "}, \
  {"/", 2, 0, 2, 0, "/math/operator/arithmetic "}, \
  {"<", 2, 0, 2, 0, "/math/operator/relational /string/operator "}, \
  {"<=", 2, 0, 2, 0, "/math/operator/relational /string/operator "}, \
  {">", 2, 0, 2, 0, "/math/operator/relational /string/operator "}, \
  {">=", 2, 0, 2, 0, "/math/operator/relational /string/operator "}, \
  {"==", 2, 0, 2, 0, "/math/operator/relational /string/operator "}, \
  {"!=", 2, 0, 2, 0, "/math/operator/relational /string/operator "}, \
  {"&", 2, 0, 2, 0, "/math/operator/logical "}, \
  {"|", 2, 0, 2, 0, "/math/operator/logical "}, \
  {"&&", 2, 0, 2, 0, "/math/operator/logical "}, \
  {"||", 2, 0, 2, 0, "/math/operator/logical "}, \
  {"%", 2, 0, 2, 0, "/math/operator/arithmetic "}, \
  {"=", 2, 0, 2, 0, "/math/operator/assignment "}, \
  {"++", 1, 0, 1, 0, "/math/operator/arithmetic /math/operator/assignment "}, \
  {"--", 1, 0, 1, 0, "/math/operator/arithmetic /math/operator/assignment "}, \
  {"+=", 2, 0, 2, 0, "/math/operator/arithmetic /math/operator/assignment "}, \
  {"-=", 2, 0, 2, 0, "/math/operator/arithmetic /math/operator/assignment "}, \
  {"*=", 2, 0, 2, 0, "/math/operator/arithmetic /math/operator/assignment "}, \
  {"/=", 2, 0, 2, 0, "/math/operator/arithmetic /math/operator/assignment "}, \
  {"%=", 2, 0, 2, 0, "/math/operator/arithmetic /math/operator/assignment "}, \
  {"??", 2, 0, 2, 0, "/math/operator/relational "}, \
  {".", 2, 0, 2, 0, "/core /math/operator/assignment "}, \
  {"add", 2, 0, 2, 0, "/math/arithmetic /string/function "}, \
  {"sub", 2, 0, 2, 0, "/math/arithmetic "}, \
  {"mul", 2, 0, 2, 0, "/math/arithmetic "}, \
  {"div", 2, 0, 2, 0, "/math/arithmetic "}, \
  {"lt", 2, 0, 2, 0, "/math/arithmetic /string/function "}, \
  {"le", 2, 0, 2, 0, "/math/arithmetic /string/function "}, \
  {"gt", 2, 0, 2, 0, "/math/arithmetic /string/function "}, \
  {"ge", 2, 0, 2, 0, "/math/arithmetic /string/function "}, \
  {"eq", 2, 0, 2, 0, "/math/arithmetic /string/function "}, \
  {"ne", 2, 0, 2, 0, "/math/arithmetic /string/function "}, \
  {"and", 2, 0, 2, 0, "/math/arithmetic "}, \
  {"or", 2, 0, 2, 0, "/math/arithmetic "}, \
  {"andalso", 2, 0, 2, 0, "/math/arithmetic "}, \
  {"orelse", 2, 0, 2, 0, "/math/arithmetic "}, \
  {"mod", 2, 0, 2, 0, "/math/arithmetic "}, \
  {"assign", 2, 0, 2, 0, "/core "}, \
  {"plus1", 1, 0, 1, 0, "/math/arithmetic "}, \
  {"minus1", 1, 0, 1, 0, "/math/arithmetic "}, \
  {"abs", 1, 0, 1, 0, "/math/arithmetic "}, \
  {"acos", 1, 0, 1, 0, "/math/trigonometric "}, \
  {"asin", 1, 0, 1, 0, "/math/trigonometric "}, \
  {"atan", 1, 0, 1, 0, "/math/trigonometric "}, \
  {"atan2", 2, 0, 2, 0, "/math/trigonometric "}, \
  {"ceil", 1, 0, 1, 0, "/math/arithmetic "}, \
  {"cos", 1, 0, 1, 0, "/math/trigonometric "}, \
  {"cosh", 1, 0, 1, 0, "/math/trigonometric "}, \
  {"exp", 1, 0, 1, 0, "/math/power "}, \
  {"floor", 1, 0, 1, 0, "/math/arithmetic "}, \
  {"fmod", 2, 0, 2, 0, "/math/arithmetic "}, \
  {"log", 1, 0, 1, 0, "/math/power "}, \
  {"log10", 1, 0, 1, 0, "/math/power "}, \
  {"pow", 2, 0, 2, 0, "/math/power "}, \
  {"sin", 1, 0, 1, 0, "/math/trigonometric "}, \
  {"sinh", 1, 0, 1, 0, "/math/trigonometric "}, \
  {"sqrt", 1, 0, 1, 0, "/math/power "}, \
  {"tan", 1, 0, 1, 0, "/math/trigonometric "}, \
  {"tanh", 1, 0, 1, 0, "/math/trigonometric "}, \
  {"erf", 1, 0, 1, 0, "/math/specialfunction "}, \
  {"erfc", 1, 0, 1, 0, "/math/specialfunction "}, \
  {"gamma", 1, 0, 1, 0, "/math/specialfunction "}, \
  {"hypot", 2, 0, 2, 0, "/math/specialfunction "}, \
  {"j0", 1, 0, 1, 0, "/math/specialfunction "}, \
  {"j1", 1, 0, 1, 0, "/math/specialfunction "}, \
  {"jn", 2, 0, 2, 0, "/math/specialfunction "}, \
  {"lgamma", 1, 0, 1, 0, "/math/specialfunction "}, \
  {"y0", 1, 0, 1, 0, "/math/specialfunction "}, \
  {"y1", 1, 0, 1, 0, "/math/specialfunction "}, \
  {"yn", 2, 0, 2, 0, "/math/specialfunction "}, \
  {"acosh", 1, 0, 1, 0, "/math/trigonometric "}, \
  {"asinh", 1, 0, 1, 0, "/math/trigonometric "}, \
  {"atanh", 1, 0, 1, 0, "/math/trigonometric "}, \
  {"cbrt", 1, 0, 1, 0, "/math/power "}, \
  {"expm1", 1, 0, 1, 0, "/math/power "}, \
  {"ilogb", 1, 0, 1, 0, "/math/power "}, \
  {"logb", 1, 0, 1, 0, "/math/power "}, \
  {"nextafter", 2, 0, 2, 0, "/math/constant "}, \
  {"remainder", 2, 0, 2, 0, "/math/arithmetic "}, \
  {"round", 1, 0, 1, 0, "/math/arithmetic "}, \
  {"nth", 2, -1, 2, 1, "/vector "}, \
  {"assign_to_index", 3, 0, 3, 0, "/vector "}, \
  {"product", 1, 0, 1, 0, "/math/arithmetic "}, \
  {"sum", 1, 0, 1, 0, "/math/arithmetic "}, \
  {"cumsum", 1, 0, 1, 0, "/math/arithmetic "}, \
  {"length", 1, 0, 1, 0, "/statistics "}, \
  {"avg", 1, 0, 1, 0, "/statistics "}, \
  {"mean", 1, 0, 1, 0, "/statistics "}, \
  {"median", 1, 0, 1, 0, "/statistics "}, \
  {"reverse", 1, 0, 1, 0, "/vector "}, \
  {"rev", 1, 0, 1, 0, "/vector "}, \
  {"sort", 1, -1, 1, 1, "/vector "}, \
  {"sortidx", 1, 0, 1, 0, "/vector "}, \
  {"nonzero", 1, 0, 1, 0, "/vector "}, \
  {"list", 0, -1, 0, 1, "/vector "}, \
  {"nfill", 1, 1, 1, 1, "/vector "}, \
  {"aseq", 2, 1, 2, 1, "/vector "}, \
  {"interleave", 2, -1, 2, 1, "/vector "}, \
  {"first", 1, 0, 1, 0, "/vector "}, \
  {"last", 1, 0, 1, 0, "/vector "}, \
  {"rest", 1, 0, 1, 0, "/vector "}, \
  {"butlast", 1, 0, 1, 0, "/vector "}, \
  {"!", 1, 0, 1, 0, "/math/operator/logical "}, \
  {"not", 1, 0, 1, 0, "/math/operator/logical "}, \
  {"dot", 2, 0, 2, 0, "/math/arithmetic "}, \
  {"cross", 2, 0, 2, 0, "/math/arithmetic "}, \
  {"det", 1, -1, 1, 1, "/math/arithmetic "}, \
  {"l2norm", 1, 0, 1, 0, "/statistics "}, \
  {"min", 1, 0, 1, 0, "/statistics "}, \
  {"max", 1, 0, 1, 0, "/statistics "}, \
  {"range", 1, 0, 1, 0, "/statistics "}, \
  {"extrema", 1, 0, 1, 0, "/statistics "}, \
  {"clip", 3, 0, 3, 0, "/math/conversion "}, \
  {"scale", 5, 0, 5, 0, "/math/conversion "}, \
  {"mtof", 1, 1, 1, 1, "/math/conversion "}, \
  {"ftom", 1, 1, 1, 1, "/math/conversion "}, \
  {"sign", 1, 0, 1, 0, "/math/arithmetic "}, \
  {"if", 2, 1, 2, 1, "/conditional "}, \
  {"strlen", 1, 0, 1, 0, "/string/function "}, \
  {"strchar", 2, 0, 2, 0, "/string/function "}, \
  {"strfind", 2, 0, 2, 0, "/string/function "}, \
  {"strcmp", 2, 1, 2, 1, "/string/function "}, \
  {"split", 2, 0, 2, 0, "/string/function "}, \
  {"join", 2, -1, 2, 1, "/string/function "}, \
  {"bound", 1, 0, 1, 0, "/predicate "}, \
  {"exists", 1, 0, 1, 0, "/predicate "}, \
  {"emptybundle", 0, 1, 0, 1, "/predicate "}, \
  {"getaddresses", 0, 1, 0, 1, "/core "}, \
  {"delete", 1, -1, 1, 0, "/core "}, \
  {"getmsgcount", 0, 0, 0, 0, "/core "}, \
  {"identity", 1, 0, 1, 0, "/math/specialfunction "}, \
  {"eval", 1, 0, 1, 0, "/core "}, \
  {"tokenize", 1, 0, 1, 0, "/core "}, \
  {"prog1", 1, -1, 1, 1, "/core "}, \
  {"prog2", 1, -1, 1, 1, "/core "}, \
  {"progn", 1, -1, 1, 1, "/core "}, \
  {"apply", 2, -1, 2, 1, "/core "}, \
  {"map", 2, -1, 2, 1, "/vector "}, \
  {"lreduce", 2, 1, 2, 1, "/vector "}, \
  {"rreduce", 2, 1, 2, 1, "/vector "}, \
  {"quote", 1, 0, 1, 0, "/core "}, \
  {"value", 1, 0, 1, 0, "/core "}, \
  {"lambda", 0, 0, 0, 0, "/core "}, \
  {"gettimetag", 0, 0, 0, 0, "/core "}, \
  {"settimetag", 1, 0, 1, 0, "/core "}, \
  {"getbundlemember", 2, 0, 2, 0, "/core "}, \
  {"assigntobundlemember", 3, 0, 3, 0, "/core "}, \
  {"bitand", 2, 0, 2, 0, "/math/bitwise "}, \
  {"bitor", 2, 0, 2, 0, "/math/bitwise "}, \
  {"pi", 0, 0, 0, 0, "/math/constant "}, \
  {"twopi", 0, 0, 0, 0, "/math/constant "}, \
  {"halfpi", 0, 0, 0, 0, "/math/constant "}, \
  {"quarterpi", 0, 0, 0, 0, "/math/constant "}, \
  {"oneoverpi", 0, 0, 0, 0, "/math/constant "}, \
  {"twooverpi", 0, 0, 0, 0, "/math/constant "}, \
  {"degtorad", 0, 0, 0, 0, "/math/constant "}, \
  {"radtodeg", 0, 0, 0, 0, "/math/constant "}, \
  {"e", 0, 0, 0, 0, "/math/constant "}, \
  {"lntwo", 0, 0, 0, 0, "/math/constant "}, \
  {"lnten", 0, 0, 0, 0, "/math/constant "}, \
  {"logtwoe", 0, 0, 0, 0, "/math/constant "}, \
  {"logtene", 0, 0, 0, 0, "/math/constant "}, \
  {"sqrttwo", 0, 0, 0, 0, "/math/constant "}, \
  {"sqrthalf", 0, 0, 0, 0, "/math/constant "}, \
  {"float32", 1, 0, 1, 0, "/core "}, \
  {"float64", 1, 0, 1, 0, "/core "}, \
  {"int8", 1, 0, 1, 0, "/core "}, \
  {"char", 1, 0, 1, 0, "/core "}, \
  {"int16", 1, 0, 1, 0, "/core "}, \
  {"int32", 1, 0, 1, 0, "/core "}, \
  {"int64", 1, 0, 1, 0, "/core "}, \
  {"uint8", 1, 0, 1, 0, "/core "}, \
  {"uint16", 1, 0, 1, 0, "/core "}, \
  {"uint32", 1, 0, 1, 0, "/core "}, \
  {"uint64", 1, 0, 1, 0, "/core "}, \
  {"bool", 1, 0, 1, 0, "/core "}, \
  {"string", 1, 0, 1, 0, "/core "}, \
  {"blob", 1, 0, 1, 0, "/core "}, \
  {"cast", 2, 0, 2, 0, "/core "}, \
  {"typetags", 1, 0, 1, 0, "/core "}, \
  {"hton32", 1, 0, 1, 0, "/core "}, \
  {"ntoh32", 1, 0, 1, 0, "/core "}, \
  {"hton64", 1, 0, 1, 0, "/core "}, \
  {"ntoh64", 1, 0, 1, 0, "/core "}, \
  {"readstring", 1, 0, 1, 0, "/core "}, \
  {"strtotime", 1, 0, 1, 0, "/core "}, \
  {"floattotime", 1, 0, 1, 0, "/core "}, \
  {"match", 2, 0, 2, 0, "/core "}, \
  {"quickhull", 1, 1, 1, 0, "/statistics "}, \
  {"bundle", 0, -1, 0, 0, " "}, \
  {"phi", 0, 0, 0, 0, "/math/constant "}, \
  {"twelfth_root_of_2", 0, 0, 0, 0, "/math/constant "}, \
  {"thirteenth_root_of_3", 0, 0, 0, 0, "/math/constant "}
