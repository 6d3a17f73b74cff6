"""Which driver, trace specifications and design models decide each property."""
def t(pid, driver, design, traces=None, **kw):
    return dict(driver=driver, design=design, traces=traces or [("Trace_" + pid, "trace*.ndjson")], **kw)
COMMON = "arrow2 is replaced by a stand-in with the same data types; everything else in src/common is the real code"
META = "rocksdb's TransactionDB is replaced by an in-memory stand-in with pessimistic per-key locks, snapshots-free reads, atomic commits, a controllable schedule and failing commits; prost's generated messages by hand-written equivalents; metadata and storage are the real code"
STORE = "arrow2 and parquet2 are replaced by stand-ins with the same interface, paging and statistics; prost's generated messages by hand-written equivalents; the storage crate is the real code, its threads stepped at file operations (counted, stopped and cut through the C library calls it makes) and at requests for its locks (parking_lot behind a wrapper that reports them)"
PLAT = "the HTTP routers, handlers, permission checks and error answers of platform and ingester are the real code over the real metadata, storage and query crates; rocksdb, arrow2 and parquet2, prost's messages, argon2 (a keyed hash), tower-cookies, validator, zxcvbn (distinct characters), maxminddb and uaparser (readable formats) are stand-ins"
QRY = "datafusion and arrow are the real libraries; no more than the fifty leading rows of a breakdown are asked for"
CHECKS = {
    "C01": t("C01", "drv-platform", ["MC_Access"], table=True, assumptions=[PLAT]),
    "C02": t("C02", "drv-common", ["MC_TimeQuery"], table=True, assumptions=[COMMON]),
    "C03": t("C03", "drv-common", ["MC_TimeQuery"], table=True, assumptions=[COMMON]),
    "C04": t("C04", "drv-common", ["MC_DataTypes"], table=True, assumptions=[COMMON]),
    "C05": t("C05", "drv-common", ["MC_StoredValues"], table=True, assumptions=[COMMON]),
    "C06": t("C06", ["drv-common", "drv-platform"], ["MC_ApiErrors"], table=True, assumptions=[COMMON, PLAT]),
    "C07": t("C07", "drv-common", ["MC_Vocabulary"], table=True, assumptions=[COMMON]),
    "M01": t("M01", "drv-metadata", ["MC_Catalogue"], assumptions=[META]),
    "M02": t("M02", "drv-metadata", ["MC_Dictionary"], assumptions=[META]),
    "M03": t("M03", "drv-metadata", ["MC_Groups"], assumptions=[META]),
    "M04": t("M04", "drv-metadata", ["MC_Sessions"], assumptions=[META]),
    "M05": t("M05", "drv-metadata", ["MC_CustomEvents"], assumptions=[META]),
    "M06": t("M06", "drv-metadata", ["MC_Accounts"], assumptions=[META, "memberships are changed through the organizations interface, never by overwriting an account's list"]),
    "M07": t("M07", "drv-metadata", ["MC_Columns"], assumptions=[META]),
    "M08": t("M08", "drv-metadata", ["MC_Isolation"], assumptions=[META]),
    "M09": t("M09", "drv-metadata", ["MC_Settings"], assumptions=[META, "no backup is put back to the waiting state by a status report"]),
    "I01": t("I01", "drv-platform", ["MC_Ingest"], assumptions=[PLAT, "what an address or a user agent says is what the readable stand-in databases say"]),
    "I02": t("I02", "drv-platform", ["MC_Ingest"], assumptions=[PLAT, "no text is used both as a user id and as an anonymous id"]),
    "P01": t("P01", "drv-platform", ["MC_Access"], table=True, assumptions=[PLAT]),
    "P02": t("P02", "drv-platform", ["MC_Tokens"], assumptions=[PLAT]),
    "P03": t("P03", "drv-platform", ["MC_ServerSettings"], assumptions=[PLAT, "the start hour fits 32 bits; no backup is put back to the waiting state by a status report"]),
    "P04": t("P04", "drv-platform", ["MC_Resources"], assumptions=[PLAT, "filters hold texts, numbers and truth values; aggregates are the five the server implements"]),
    "Q01": t("Q01", "drv-platform", ["MC_Analytics"], table=True, assumptions=[PLAT, QRY]),
    "Q02": t("Q02", "drv-platform", ["MC_Segments"], table=True, assumptions=["segments are planned and run by the query crate's own planner and operators over in-memory tables sorted by user; datafusion and arrow are the real libraries", "a segment's input is one partition"]),
    "Q03": t("Q03", "drv-platform", ["MC_Analytics", "MC_Segments"], traces=[("Trace_Q03", "trace*.ndjson"), ("Trace_Q03ops", "ops*.ndjson")], table=True, assumptions=[PLAT, QRY]),
    "Q04": t("Q04", "drv-platform", ["MC_Analytics", "MC_Segments"], traces=[("Trace_Q04", "trace*.ndjson"), ("Trace_Q04ops", "ops*.ndjson")], table=True, assumptions=[PLAT, QRY]),
    "Q05": t("Q05", "drv-platform", ["MC_Funnels"], traces=[("Trace_Q05", "trace*.ndjson"), ("Trace_Q05ops", "ops*.ndjson")], table=True, assumptions=[PLAT, QRY, "no two events of a user happen at the same time", "funnels without filter and touch, not counting sessions: nothing implements those"]),
    "Q06": t("Q06", "drv-platform", ["MC_Analytics"], table=True, assumptions=[PLAT, QRY]),
    "Q07": t("Q07", "drv-platform", ["MC_Records", "MC_Analytics"], table=True, assumptions=[PLAT, QRY, "the raw store is read through its own scan (S02); a missing number may read nought in a table"]),
    "S01": t("S01", "drv-storage", ["MC_StoreDisk", "MC_Store"], assumptions=[STORE, "a crash ends the process between two file operations, or in the middle of a write; what was written before it stays written"]),
    "S02": t("S02", "drv-storage", ["MC_Store", "MC_StoreDisk"], assumptions=[STORE]),
    "S03": t("S03", "drv-storage", ["MC_Levels"], table=True, assumptions=[STORE]),
    "S04": t("S04", "drv-storage", ["MC_Levels", "MC_Levels_rep"], assumptions=[STORE]),
    "S05": t("S05", "drv-storage", ["MC_Levels_rep", "MC_Store"], assumptions=[STORE, "no two rows of a key have the same version"]),
    "S06": t("S06", "drv-storage", ["MC_Store"], assumptions=[STORE]),
    "S07": t("S07", "drv-storage", ["MC_Store"], assumptions=[STORE]),
}
NOT_APPLICABLE = {}
NOTES = "Language: TLA+ with TLC. See DESIGN.md."
