[
('fw-swap', 'P17', 'bug', 'src/ReadDirect.cc', 'file->readTraceNonMonotonic(sz, offset, trace, prm);', 'file->readTraceNonContiguous(sz, offset, trace, prm);'),
('fw-off', 'P17', 'bug', 'src/WriteDirect.cc', 'file->writeParam(offset, sz, prm);', 'file->writeParam(sz, offset, prm);'),
('fw-skip', 'P17', 'bug', 'src/ReadInterface.cc', 'offset, sz, const_cast<exseis::utils::Trace_value*>(TRACE_NULL), prm,\n      skip);', 'offset, sz, const_cast<exseis::utils::Trace_value*>(TRACE_NULL), prm);'),
('fw-null', 'P17', 'bug', 'src/WriteInterface.cc', 'sz, offset, const_cast<exseis::utils::Trace_value*>(TRACE_NULL), prm,', 'sz, offset, nullptr, prm,'),
('fw-inc', 'P17', 'bug', 'src/ReadDirect.cc', '    return file->readInc();', '    return float(file->readInc());'),
('fw-nt', 'P17', 'bug', 'src/ReadDirect.cc', '    return file->readNt();', '    return file->readNs();'),
('fw-setsz', 'P17', 'bug', 'src/ObjectInterface.cc', '    return data_->setFileSz(sz);', '    if (data_->getFileSz() != sz) data_->setFileSz(sz);'),
('fw-same', 'P17', 'same', 'src/ReadDirect.cc', '    return file->readNt();', '    const ReadInterface& f = *file;\n    const size_t traces = f.readNt();\n    return traces;'),
('fw-same2', 'P17', 'same', 'src/WriteInterface.cc', '    writeTrace(\n      offset, sz, const_cast<exseis::utils::Trace_value*>(TRACE_NULL), prm,\n      skip);', '    auto* none = const_cast<exseis::utils::Trace_value*>(TRACE_NULL);\n    this->writeTrace(offset, sz, none, prm, skip);'),
]
