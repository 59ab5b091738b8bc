// Workload generation shared by the scenarios.
#pragma once
#include "core.h"
#include <string>
#include <vector>

namespace sim { namespace gen {

// Load the messages shipped with the repository as a sample of real traffic
void prepare_corpus();
const std::string& corpus_bufr();
const std::string& corpus_crex();
const std::vector<std::pair<std::string, std::string>>& all_bufr();
const std::vector<std::pair<std::string, std::string>>& all_crex();

// Fill the simulated file system with the repository's tables
void prepare_tables();

}}
