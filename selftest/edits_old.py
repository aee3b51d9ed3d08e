"""Edits for C33."""
FH = "include/NeoFOAM/core/database/fieldCollection.hpp"
FC = "src/core/database/fieldCollection.cpp"
OH = "include/NeoFOAM/core/database/oldTimeCollection.hpp"
OC = "src/core/database/oldTimeCollection.cpp"
EDITS = [
    ("old-same-index", [(OH, ".timeIndex = fieldDoc.timeIndex() - 1,", ".timeIndex = fieldDoc.timeIndex(),")], ["C33"]),
    ("old-iter", [(OH, ".iterationIndex = fieldDoc.iterationIndex(),", ".iterationIndex = fieldDoc.subCycleIndex(),")], ["C33"]),
    ("old-name", [(OH, 'name + "_0";', 'name + "_old";')], ["C33"]),
    ("old-noinsert", [(OH, "        insert(oldTimeDocument);\n", "")], ["C33"]),
    ("old-prev-swap", [(OH, "oldTimeDocument(fieldDoc.field<FieldType>().key, oldField.key, \"\", -1);", "oldTimeDocument(oldField.key, fieldDoc.field<FieldType>().key, \"\", -1);")], ["C33"]),
    ("old-nolevel", [(OH, "        setCurrentFieldAndLevel(oldTimeDocument);\n", "")], ["C33"]),
    ("old-level", [(OC, "    oldTimeDoc.level() = nextDoc.level() + 1;", "    oldTimeDoc.level() = 2 * nextDoc.level() + 1;")], ["C33"]),
    ("old-current", [(OC, "    oldTimeDoc.currentTime() = nextDoc.currentTime();", "    oldTimeDoc.currentTime() = nextDoc.nextTime() + nextDoc.currentTime();")], ["C33"]),
    ("old-current-next", [(OC, "    oldTimeDoc.currentTime() = nextDoc.currentTime();", "    oldTimeDoc.currentTime() = oldTimeDoc.nextTime();")], ["C33"]),
    ("old-find", [(OC, 'return doc.get<std::string>("nextTime") == id; });\n    if (keys.size() == 1)', 'return doc.get<std::string>("currentTime") == id; });\n    if (keys.size() >= 1)')], ["C33"]),
    ("old-get-current", [(OH, "            const OldTimeDocument& oldTimeDocument = oldTimeDoc(nextId);\n            return fieldCollection.fieldDoc(oldTimeDocument.previousTime())", "            const OldTimeDocument& oldTimeDocument = oldTimeDoc(nextId);\n            return fieldCollection.fieldDoc(oldTimeDocument.nextTime())")], ["C33"]),
    ("old-instance-db", [(OC, 'std::string name = fieldCollection.name() + "_oldTime";\n    return instance(fieldCollection.db(), name, fieldCollection.name());', 'std::string name = "oldTime";\n    return instance(fieldCollection.db(), name, fieldCollection.name());')], ["C33"]),
    ("old-insert-over", [(OC, "    docs_.emplace(id, otd);\n    return true;", "    docs_.emplace(id, otd);\n    return contains(id) && docs_.size() > 1;")], ["C33"]),
    ("fc-nokey", [(FH, "        field.key = key;\n", "")], ["C33"]),
    ("fc-collname", [(FH, "field.fieldCollectionName = name();", "field.fieldCollectionName = field.name;")], ["C33"]),
    ("fc-indexes", [(FH, "iterationIndex = fieldDoc.iterationIndex();", "iterationIndex = fieldDoc.timeIndex();")], ["C33"]),
    ("fc-bc", [(FH, "field.exec(), name, field.mesh(), domainField, field.boundaryConditions(), db", "field.exec(), name, field.mesh(), domainField, {}, db")], ["C33"]),
    ("fc-insert-over", [(FC, "    if (contains(id))\n    {\n        return \"\";\n    }\n    docs_.emplace(id, cc);", "    docs_.insert_or_assign(id, cc);")], []),
    ("fc-validate", [(FH, 'const Collection& collection = db.at(field.fieldCollectionName);\n        return collection.as<FieldCollection>();', 'return instance(db, field.name);')], ["C33"]),
    ("fc-docindex", [(FH, '                 {"iterationIndex", iterationIndex},\n                 {"subCycleIndex", subCycleIndex},\n                 {"field", field}}', '                 {"iterationIndex", subCycleIndex},\n                 {"subCycleIndex", subCycleIndex},\n                 {"field", field}}')], ["C33"]),
    ("fc-unvalidated", [(FH, '        validateRegistration(\n            field, "attempting to retrieve FieldCollection from unregistered field"\n        );\n        return instance(', '        return instance(')], ["C33"]),
    ("fc-helper-ok", [(FH, '        FieldDocument& fd = fieldDoc(key);\n        FieldType& field = fd.field<FieldType>();\n        field.key = key;\n        field.fieldCollectionName = name();\n        return field;', '        auto& field = fieldDoc(key).template field<FieldType>();\n        field.fieldCollectionName = name();\n        field.key = key;\n        return field;')], []),
    ("old-early-ok", [(OC, "    if (nextId == \"\") // not registered yet\n    {\n        oldTimeDoc.currentTime() = oldTimeDoc.nextTime();\n        oldTimeDoc.level() = 1;\n        return;\n    }\n", "    if (nextId.empty())\n    {\n        oldTimeDoc.level() = 1;\n        oldTimeDoc.currentTime() = oldTimeDoc.nextTime();\n        return;\n    }\n")], []),
    ("old-loop-ok", [(OC, "    auto keys = find([id](const Document& doc) { return doc.get<std::string>(\"nextTime\") == id; });\n    if (keys.size() == 1)\n    {\n        return keys[0];\n    }\n    return \"\";", "    for (const auto& [key, doc] : docs_)\n    {\n        if (doc.nextTime() == id)\n        {\n            return key;\n        }\n    }\n    return \"\";")], []),
]
_H = "include/NeoFOAM/core/database/fieldCollection.hpp"
_S = "src/core/database/fieldCollection.cpp"
_O = "src/core/database/oldTimeCollection.cpp"
EDITS += [
    ("old-doc-name", [(_H, '{{"name", field.name},', '{{"name", field.key},')], ["C33"]),
    ("old-doc-ref-index", [(_S, 'std::int64_t& FieldDocument::timeIndex() { return doc_.get<std::int64_t>("timeIndex"); }', 'std::int64_t& FieldDocument::timeIndex() { return doc_.get<std::int64_t>("iterationIndex"); }')], ["C33"]),
    ("old-doc-ref-previous", [(_O, 'std::string& OldTimeDocument::previousTime() { return doc_.get<std::string>("previousTime"); }', 'std::string& OldTimeDocument::previousTime() { return doc_.get<std::string>("nextTime"); }')], ["C33"]),
    ("old-doc-ref-name", [(_S, 'std::string& FieldDocument::name() { return doc_.get<std::string>("name"); }', 'std::string& FieldDocument::name() { return NeoFOAM::name(doc_); }')], []),
]
EDITS += [
    ("old-valid-or", [(_S, '&& doc.contains("subCycleIndex")', '|| doc.contains("subCycleIndex")')], ["C33"]),
    ("old-valid-less", [(_S, 'doc.contains("timeIndex") && ', '')], ["C33"]),
    ("old-wrap-unchecked", [(_S, 'doc_(doc, validateFieldDoc)', 'doc_(doc)')], ["C33"]),
    ("old-valid-order", [(_S, 'doc.contains("name") && doc.contains("timeIndex")', 'doc.contains("timeIndex") && doc.contains("name")')], []),
]
