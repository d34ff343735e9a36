//@module error src/error.rs
broadcast use {group_string};
//@type SpanWithSource
//@fn SpanWithSource::new
//@spec
    ensures r == (SpanWithSource { offset, length, name: file_name, content }),
//@end
//@type ParseDiagnostic
pub uninterp spec fn report_of(d: ParseDiagnostic) -> Report;
impl VInto<Report> for ParseDiagnostic {
    open spec fn vi(self) -> Report { report_of(self) }
    #[verifier::external_body]
    fn v_into(self) -> (r: Report) { unimplemented!() }
}
