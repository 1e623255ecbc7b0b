// Instantiates the header-only templates of /repo so that clang emits their bodies. No code of its own.
#include "helper_templates.h"
#include "distributions/categorical_distribution.h"
#include "distributions/discrete_uniform_distribution.h"
#include "distributions/mixed_distribution.h"
template class thts::CategoricalDistribution<int>;
template class thts::DiscreteUniformDistribution<int>;
template class thts::MixedDistribution<int>;
template int thts::helper::sample_from_distribution<int>(std::unordered_map<int,double>&, thts::RandManager&, bool);
template int thts::helper::get_max_key_break_ties_randomly<int,double>(std::unordered_map<int,double>&, thts::RandManager&);
#include "thts_env_context.h"
template int& thts::ThtsEnvContext::get_value<int>(const std::string&) const;
template const int& thts::ThtsEnvContext::get_value_const<int>(const std::string&) const;
template std::shared_ptr<int> thts::ThtsEnvContext::get_value_ptr<int>(const std::string&) const;
template std::shared_ptr<const int> thts::ThtsEnvContext::get_value_ptr_const<int>(const std::string&) const;
template void thts::ThtsEnvContext::put_value<int>(const std::string&, std::shared_ptr<int>);
template void thts::ThtsEnvContext::put_value_const<int>(const std::string&, std::shared_ptr<const int>);
