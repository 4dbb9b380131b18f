static json::Object fields(const heir::CompilationTarget &t) {
  return json::Object{{"backend", heir::toString(t.backendName).str()},
                      {"bootstrapLevelsConsumed", t.bootstrapLevelsConsumed},
                      {"has_kernel_chebyshev", t.has_kernel_chebyshev},
                      {"has_kernel_linear_transform", t.has_kernel_linear_transform}};
}
