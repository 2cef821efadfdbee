[
('lg-verb', 'P28', 'bug', 'src/Logger.cc', '    if (stat == Logger::Status::Error) {\n        error = true;', '    if (stat == Logger::Status::Error && verbosity <= maxLevel) {\n        error = true;'),
('lg-set', 'P28', 'bug', 'src/Logger.cc', '    if (stat == Logger::Status::Error) {\n        error = true;\n    }', '    error = (stat == Logger::Status::Error);'),
('lg-clear', 'P28', 'bug', 'src/Logger.cc', '    loglist_.clear();', '    loglist_.clear();\n    error = false;'),
('lg-lim', 'P28', 'bug', 'src/Logger.cc', 'if (verbosity <= maxLevel) {', 'if (verbosity < maxLevel) {'),
('lg-cond', 'P28', 'bug', 'src/Logger.cc', '    if (condition) {', '    if (condition && stat != Status::Error) {'),
('lg-field', 'P28', 'bug', 'src/Logger.cc', '{file, layer, stat, msg, verbosity}', '{file, layer, stat, file, verbosity}'),
('lg-noclear', 'P28', 'bug', 'src/Logger.cc', '    loglist_.clear();', '    if (!error) loglist_.clear();'),
('lg-count', 'P28', 'bug', 'src/Logger.cc', 'if (item.stat == stat) {', 'if (item.stat >= stat) {'),
('lg-exit', 'P28', 'bug', 'src/ExSeisPIOL.cc', 'std::_Exit(EXIT_FAILURE)', 'std::_Exit(EXIT_SUCCESS)'),
('lg-dump', 'P28', 'bug', 'src/ExSeisPIOL.cc', '        log->~Logger();\n', '        (void)log;\n'),
('lg-exit2', 'P28', 'bug', 'src/ExSeisPIOL.cc', '    if (log->isErr()) {', '    if (log->isErr() && comm->getRank() == 0) {'),
('lg-same', 'P28', 'same', 'src/Logger.cc', '    if (verbosity <= maxLevel) {\n        loglist_.push_front({file, layer, stat, msg, verbosity});\n    }\n', '    const bool keep = !(verbosity > maxLevel);\n    if (keep) {\n        Item item{file, layer, stat, msg, verbosity};\n        loglist_.push_front(item);\n    }\n'),
('lg-same2', 'P28', 'same', 'src/Logger.cc', '    if (stat == Logger::Status::Error) {\n        error = true;\n    }', '    error = error || (stat == Logger::Status::Error);'),
('lg-same3', 'P28', 'same', 'src/ExSeisPIOL.cc', '    if (log->isErr()) {', '    const bool failed = log->isErr();\n    if (!failed) {\n        return;\n    }\n    {'),
]
