#include <design_context.hpp>
void RADSimDesignContext::RegisterModule(std::string, RADSimModule *) {}
