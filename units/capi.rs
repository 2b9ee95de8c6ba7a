#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use std::rc::Rc;
verus! {
// A pointer is read as an optional reference (None: NULL): `p.as_ref()` is p, `r as *const T` is Some(r), null() is None.
/*@ config
presig: * const Transaction =>> Option<&'a Transaction>
presig: * const Headers =>> Option<&'a Headers>
presig: * const Header =>> Option<&'a Header>
presig: * const Bstr =>> Option<&'a Bstr>
presig: * const Uri =>> Option<&'a Uri>
presig: * const Connection =>> Option<&'a Connection>
presig: * const ConnectionParser =>> Option<&'a ConnectionParser>
presig: * mut ConnectionParser =>> Option<&'a ConnectionParser>
presig: * const libc :: c_char =>> CKey<'a>
pre: tx . as_ref ( ) =>> tx
pre: ( * tx ) =>> (*vx_deref(tx))
pre: headers . as_ref ( ) =>> headers
pre: header . as_ref ( ) =>> header
pre: uri . as_ref ( ) =>> uri
pre: conn . as_ref ( ) =>> conn
pre: connp . as_ref ( ) =>> connp
pre: tx as * const Transaction =>> Some(tx)
pre: as * const Bstr =>> .vx_ptr()
pre: as * const Header =>> .vx_ptr()
pre: as * const Uri =>> .vx_ptr()
pre: std :: ptr :: null ( ) =>> None
pre: isize :: try_from ( __ANY ) . unwrap_or ( - 1 ) =>> vx_isize(__ANY)
pre: . try_into ( ) . ok ( ) . unwrap_or ( - 1 ) =>> .vx_i64()
@*/
//@include base.inc
//@include bstr.inc
/*@ item transaction.rs::HtpProtocol
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item transaction.rs::HtpResponseNumber
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item transaction.rs::HtpTransferCoding
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item transaction.rs::HtpAuthType
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item transaction.rs::HtpRequestProgress
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item transaction.rs::HtpResponseProgress
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item decompressors.rs::HtpContentEncoding
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item request.rs::HtpMethod
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item transaction.rs::Header
@*/
/*@ item transaction.rs::Headers
@*/
/*@ item uri.rs::Uri
fields: scheme, username, password, hostname, port, port_number, path, query, fragment
@*/
/*@ item config.rs::DecoderConfig
fields: normalized_uri_include_all
@*/
/*@ item config.rs::Config
fields: decoder_cfg
@*/
/*@ item connection.rs::Connection
fields: request_data_counter, response_data_counter
@*/
/*@ item transaction.rs::Transaction
fields: cfg, index, flags, request_line, request_method, request_method_number, request_uri, request_protocol, request_protocol_number, is_protocol_0_9, is_http_2_upgrade, parsed_uri, complete_normalized_uri, partial_normalized_uri, request_message_len, request_entity_len, request_headers, request_transfer_coding, request_content_encoding, request_content_type, request_content_length, request_auth_type, request_hostname, request_port_number, response_line, response_protocol, response_protocol_number, response_status, response_status_number, response_message, response_headers, response_message_len, response_entity_len, response_content_length, response_content_type, request_progress, response_progress
@*/
/// the transactions a connection holds (unit txs)
#[verifier::external_body] pub struct Transactions { _0: u8 }
impl Transactions {
    pub uninterp spec fn n(&self) -> usize;
    pub uninterp spec fn held(&self, i: usize) -> Option<Transaction>;
    #[verifier::external_body] pub fn size(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn get<'a>(&'a self, i: usize) -> (r: Option<&'a Transaction>) ensures r == oref(self.held(i)) { unimplemented!() }
}
/*@ item connection_parser.rs::ConnectionParser
fields: transactions, request_bytes_consumed, response_bytes_consumed
@*/
pub open spec fn started(t: Transaction) -> bool { !(t.request_progress == HtpRequestProgress::NOT_STARTED && t.response_progress == HtpResponseProgress::NOT_STARTED) }
pub open spec fn shown_tx<'a>(c: ConnectionParser, i: usize) -> Option<&'a Transaction> { match c.transactions.held(i) { Some(t) => if started(t) { Some(&t) } else { None }, None => None } }
impl Bstr { #[verifier::external_body] pub fn vx_ptr<'a>(&'a self) -> (r: Option<&'a Bstr>) ensures r == Some(self) { unimplemented!() } }
impl Header { #[verifier::external_body] pub fn vx_ptr<'a>(&'a self) -> (r: Option<&'a Header>) ensures r == Some(self) { unimplemented!() } }
impl Uri { #[verifier::external_body] pub fn vx_ptr<'a>(&'a self) -> (r: Option<&'a Uri>) ensures r == Some(self) { unimplemented!() } }
/// reading through a pointer: it must not be NULL
#[verifier::external_body] pub fn vx_deref<'a, T>(p: Option<&'a T>) -> (r: &'a T) requires p is Some ensures r == p->0 { unimplemented!() }
/// a count as a signed number, -1 if it has none
pub open spec fn isz(n: nat) -> isize { if n <= isize::MAX { n as isize } else { -1isize } }
pub open spec fn i64z(n: u64) -> i64 { if n <= i64::MAX { n as i64 } else { -1i64 } }
pub open spec fn status_no(n: HtpResponseNumber) -> i32 { match n { HtpResponseNumber::UNKNOWN => 0i32, HtpResponseNumber::INVALID => -1i32, HtpResponseNumber::VALID(s) => s as i32 } }
pub open spec fn oref<'a, T>(x: Option<T>) -> Option<&'a T> { match x { Some(v) => Some(&v), None => None } }
pub open spec fn at<'a>(s: Seq<Header>, i: usize) -> Option<&'a Header> { if i < s.len() { Some(&s[i as int]) } else { None } }
#[verifier::external_body] pub fn vx_isize(n: usize) -> (r: isize) ensures r == isz(n as nat) { unimplemented!() }
pub trait VxI64 { fn vx_i64(self) -> (r: i64); }
impl VxI64 for u64 { #[verifier::external_body] fn vx_i64(self) -> (r: i64) ensures r == i64z(self) { unimplemented!() } }
#[verifier::external_body] pub fn vx_get<'a>(v: &'a Vec<Header>, i: usize) -> (r: Option<&'a Header>) ensures r == at(v@, i) { unimplemented!() }
impl VxI64 for usize { #[verifier::external_body] fn vx_i64(self) -> (r: i64) ensures r == i64z(self as u64) { unimplemented!() } }
/// a C string, or NULL
#[derive(Clone, Copy)] pub struct CKey<'a> { pub key: Option<&'a [u8]> }
impl<'a> CKey<'a> {
    #[verifier::external_body] pub fn vx_bytes(self) -> (r: Option<&'a [u8]>) ensures r == self.key { unimplemented!() }
}
/// the first field of this name, up to case and NULs (unit names)
pub uninterp spec fn first(h: Headers, name: Seq<u8>) -> Option<Header>;
pub open spec fn found<'a>(h: Headers, k: CKey<'a>) -> Option<&'a Header> { match k.key { Some(n) => oref(first(h, n@)), None => None } }
impl Headers {
    #[verifier::external_body] pub fn get_nocase_nozero<'a>(&'a self, name: &[u8]) -> (r: Option<&'a Header>) ensures r == oref(first(*self, name@)) { unimplemented!() }
}
/*@ fn transaction.rs::Headers::size
ret: r
spec: ensures r == self.elements@.len()
@*/
/*@ fn transaction.rs::Transaction::is_started
ret: r
spec: ensures r == started(*self)
@*/
/*@ fn connection_parser.rs::ConnectionParser::tx_size
ret: r
spec: ensures r == self.transactions.n()
@*/
/*@ fn connection_parser.rs::ConnectionParser::tx
ret: r
spec: ensures r == oref(self.transactions.held(index))
@*/
/*@ fn connection_parser.rs::ConnectionParser::request_data_consumed
ret: r
spec: ensures r == self.request_bytes_consumed
@*/
/*@ fn connection_parser.rs::ConnectionParser::response_data_consumed
ret: r
spec: ensures r == self.response_bytes_consumed
@*/
/*@ fn c_api/header.rs::htp_headers_get
ret: r
presig: fn htp_headers_get =>> fn htp_headers_get<'a>
pre: ckey . as_ref ( ) =>> ckey.vx_bytes()
pre: std :: ffi :: CStr :: from_ptr ( ckey ) . to_bytes ( ) =>> ckey
closure 0 args: value: &Header
closure 0: -> (o: Option<&Header>) ensures o == Some(value)
spec: ensures r == (match headers { Some(h) => found(*h, ckey), None => None::<&Header> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_line
ret: r
presig: fn htp_tx_request_line =>> fn htp_tx_request_line<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Bstr>) ensures o == (match tx.request_line { Some(v) => Some(&v), None => None })
closure 1 args: line: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(line)
spec: ensures r == (match tx { Some(x) => (match x.request_line { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_method
ret: r
presig: fn htp_tx_request_method =>> fn htp_tx_request_method<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Bstr>) ensures o == (match tx.request_method { Some(v) => Some(&v), None => None })
closure 1 args: method: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(method)
spec: ensures r == (match tx { Some(x) => (match x.request_method { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_uri
ret: r
presig: fn htp_tx_request_uri =>> fn htp_tx_request_uri<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Bstr>) ensures o == (match tx.request_uri { Some(v) => Some(&v), None => None })
closure 1 args: uri: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(uri)
spec: ensures r == (match tx { Some(x) => (match x.request_uri { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_protocol
ret: r
presig: fn htp_tx_request_protocol =>> fn htp_tx_request_protocol<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Bstr>) ensures o == (match tx.request_protocol { Some(v) => Some(&v), None => None })
closure 1 args: protocol: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(protocol)
spec: ensures r == (match tx { Some(x) => (match x.request_protocol { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_content_type
ret: r
presig: fn htp_tx_request_content_type =>> fn htp_tx_request_content_type<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Bstr>) ensures o == (match tx.request_content_type { Some(v) => Some(&v), None => None })
closure 1 args: content_type: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(content_type)
spec: ensures r == (match tx { Some(x) => (match x.request_content_type { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_hostname
ret: r
presig: fn htp_tx_request_hostname =>> fn htp_tx_request_hostname<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Bstr>) ensures o == (match tx.request_hostname { Some(v) => Some(&v), None => None })
closure 1 args: hostname: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(hostname)
spec: ensures r == (match tx { Some(x) => (match x.request_hostname { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_line
ret: r
presig: fn htp_tx_response_line =>> fn htp_tx_response_line<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Bstr>) ensures o == (match tx.response_line { Some(v) => Some(&v), None => None })
closure 1 args: response_line: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(response_line)
spec: ensures r == (match tx { Some(x) => (match x.response_line { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_protocol
ret: r
presig: fn htp_tx_response_protocol =>> fn htp_tx_response_protocol<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Bstr>) ensures o == (match tx.response_protocol { Some(v) => Some(&v), None => None })
closure 1 args: response_protocol: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(response_protocol)
spec: ensures r == (match tx { Some(x) => (match x.response_protocol { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_status
ret: r
presig: fn htp_tx_response_status =>> fn htp_tx_response_status<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Bstr>) ensures o == (match tx.response_status { Some(v) => Some(&v), None => None })
closure 1 args: response_status: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(response_status)
spec: ensures r == (match tx { Some(x) => (match x.response_status { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_message
ret: r
presig: fn htp_tx_response_message =>> fn htp_tx_response_message<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Bstr>) ensures o == (match tx.response_message { Some(v) => Some(&v), None => None })
closure 1 args: response_message: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(response_message)
spec: ensures r == (match tx { Some(x) => (match x.response_message { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_content_type
ret: r
presig: fn htp_tx_response_content_type =>> fn htp_tx_response_content_type<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Bstr>) ensures o == (match tx.response_content_type { Some(v) => Some(&v), None => None })
closure 1 args: response_content_type: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(response_content_type)
spec: ensures r == (match tx { Some(x) => (match x.response_content_type { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_parsed_uri
ret: r
presig: fn htp_tx_parsed_uri =>> fn htp_tx_parsed_uri<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Uri>) ensures o == (match tx.parsed_uri { Some(v) => Some(&v), None => None })
closure 1 args: uri: &Uri
closure 1: -> (o: Option<&Uri>) ensures o == Some(uri)
spec: ensures r == (match tx { Some(x) => (match x.parsed_uri { Some(v) => Some(&v), None => None }), None => None::<&Uri> })
@*/
/*@ fn c_api/uri.rs::htp_uri_scheme
ret: r
presig: fn htp_uri_scheme =>> fn htp_uri_scheme<'a>
closure 0 args: uri: &Uri
closure 0: -> (o: Option<&Bstr>) ensures o == (match uri.scheme { Some(v) => Some(&v), None => None })
closure 1 args: scheme: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(scheme)
spec: ensures r == (match uri { Some(x) => (match x.scheme { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/uri.rs::htp_uri_username
ret: r
presig: fn htp_uri_username =>> fn htp_uri_username<'a>
closure 0 args: uri: &Uri
closure 0: -> (o: Option<&Bstr>) ensures o == (match uri.username { Some(v) => Some(&v), None => None })
closure 1 args: username: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(username)
spec: ensures r == (match uri { Some(x) => (match x.username { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/uri.rs::htp_uri_password
ret: r
presig: fn htp_uri_password =>> fn htp_uri_password<'a>
closure 0 args: uri: &Uri
closure 0: -> (o: Option<&Bstr>) ensures o == (match uri.password { Some(v) => Some(&v), None => None })
closure 1 args: password: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(password)
spec: ensures r == (match uri { Some(x) => (match x.password { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/uri.rs::htp_uri_hostname
ret: r
presig: fn htp_uri_hostname =>> fn htp_uri_hostname<'a>
closure 0 args: uri: &Uri
closure 0: -> (o: Option<&Bstr>) ensures o == (match uri.hostname { Some(v) => Some(&v), None => None })
closure 1 args: hostname: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(hostname)
spec: ensures r == (match uri { Some(x) => (match x.hostname { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/uri.rs::htp_uri_port
ret: r
presig: fn htp_uri_port =>> fn htp_uri_port<'a>
closure 0 args: uri: &Uri
closure 0: -> (o: Option<&Bstr>) ensures o == (match uri.port { Some(v) => Some(&v), None => None })
closure 1 args: port: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(port)
spec: ensures r == (match uri { Some(x) => (match x.port { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/uri.rs::htp_uri_path
ret: r
presig: fn htp_uri_path =>> fn htp_uri_path<'a>
closure 0 args: uri: &Uri
closure 0: -> (o: Option<&Bstr>) ensures o == (match uri.path { Some(v) => Some(&v), None => None })
closure 1 args: path: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(path)
spec: ensures r == (match uri { Some(x) => (match x.path { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/uri.rs::htp_uri_query
ret: r
presig: fn htp_uri_query =>> fn htp_uri_query<'a>
closure 0 args: uri: &Uri
closure 0: -> (o: Option<&Bstr>) ensures o == (match uri.query { Some(v) => Some(&v), None => None })
closure 1 args: query: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(query)
spec: ensures r == (match uri { Some(x) => (match x.query { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/uri.rs::htp_uri_fragment
ret: r
presig: fn htp_uri_fragment =>> fn htp_uri_fragment<'a>
closure 0 args: uri: &Uri
closure 0: -> (o: Option<&Bstr>) ensures o == (match uri.fragment { Some(v) => Some(&v), None => None })
closure 1 args: fragment: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(fragment)
spec: ensures r == (match uri { Some(x) => (match x.fragment { Some(v) => Some(&v), None => None }), None => None::<&Bstr> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_method_number
ret: r
presig: fn htp_tx_request_method_number =>> fn htp_tx_request_method_number<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: HtpMethod) ensures o == tx.request_method_number
spec: ensures r == (match tx { Some(x) => x.request_method_number, None => HtpMethod::ERROR })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_protocol_number
ret: r
presig: fn htp_tx_request_protocol_number =>> fn htp_tx_request_protocol_number<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: HtpProtocol) ensures o == tx.request_protocol_number
spec: ensures r == (match tx { Some(x) => x.request_protocol_number, None => HtpProtocol::ERROR })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_protocol_number
ret: r
presig: fn htp_tx_response_protocol_number =>> fn htp_tx_response_protocol_number<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: HtpProtocol) ensures o == tx.response_protocol_number
spec: ensures r == (match tx { Some(x) => x.response_protocol_number, None => HtpProtocol::ERROR })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_transfer_coding
ret: r
presig: fn htp_tx_request_transfer_coding =>> fn htp_tx_request_transfer_coding<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: HtpTransferCoding) ensures o == tx.request_transfer_coding
spec: ensures r == (match tx { Some(x) => x.request_transfer_coding, None => HtpTransferCoding::ERROR })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_content_encoding
ret: r
presig: fn htp_tx_request_content_encoding =>> fn htp_tx_request_content_encoding<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: HtpContentEncoding) ensures o == tx.request_content_encoding
spec: ensures r == (match tx { Some(x) => x.request_content_encoding, None => HtpContentEncoding::ERROR })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_auth_type
ret: r
presig: fn htp_tx_request_auth_type =>> fn htp_tx_request_auth_type<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: HtpAuthType) ensures o == tx.request_auth_type
spec: ensures r == (match tx { Some(x) => x.request_auth_type, None => HtpAuthType::ERROR })
@*/
/*@ fn c_api/transaction.rs::htp_tx_flags
ret: r
presig: fn htp_tx_flags =>> fn htp_tx_flags<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: u64) ensures o == tx.flags
spec: ensures r == (match tx { Some(x) => x.flags, None => 0u64 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_progress
ret: r
presig: fn htp_tx_request_progress =>> fn htp_tx_request_progress<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: HtpRequestProgress) ensures o == tx.request_progress
spec: ensures r == (match tx { Some(x) => x.request_progress, None => HtpRequestProgress::ERROR })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_progress
ret: r
presig: fn htp_tx_response_progress =>> fn htp_tx_response_progress<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: HtpResponseProgress) ensures o == tx.response_progress
spec: ensures r == (match tx { Some(x) => x.response_progress, None => HtpResponseProgress::ERROR })
@*/
/*@ fn c_api/header.rs::htp_header_flags
ret: r
presig: fn htp_header_flags =>> fn htp_header_flags<'a>
closure 0 args: header: &Header
closure 0: -> (o: u64) ensures o == header.flags
spec: ensures r == (match header { Some(x) => x.flags, None => 0u64 })
@*/
/*@ fn c_api/connection.rs::htp_conn_request_data_counter
ret: r
presig: fn htp_conn_request_data_counter =>> fn htp_conn_request_data_counter<'a>
closure 0 args: conn: &Connection
closure 0: -> (o: u64) ensures o == conn.request_data_counter
spec: ensures r == (match conn { Some(x) => x.request_data_counter, None => 0u64 })
@*/
/*@ fn c_api/connection.rs::htp_conn_response_data_counter
ret: r
presig: fn htp_conn_response_data_counter =>> fn htp_conn_response_data_counter<'a>
closure 0 args: conn: &Connection
closure 0: -> (o: u64) ensures o == conn.response_data_counter
spec: ensures r == (match conn { Some(x) => x.response_data_counter, None => 0u64 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_is_protocol_0_9
ret: r
presig: fn htp_tx_is_protocol_0_9 =>> fn htp_tx_is_protocol_0_9<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: i32) ensures o == if tx.is_protocol_0_9 { 1i32 } else { 0i32 }
spec: ensures r == (match tx { Some(x) => if x.is_protocol_0_9 { 1i32 } else { 0i32 }, None => 0i32 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_is_http_2_upgrade
ret: r
presig: fn htp_tx_is_http_2_upgrade =>> fn htp_tx_is_http_2_upgrade<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: i32) ensures o == if tx.is_http_2_upgrade { 1i32 } else { 0i32 }
spec: ensures r == (match tx { Some(x) => if x.is_http_2_upgrade { 1i32 } else { 0i32 }, None => 0i32 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_headers
ret: r
presig: fn htp_tx_request_headers =>> fn htp_tx_request_headers<'a>
pre: & tx . request_headers as * const Headers =>> Some(&tx.request_headers)
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Headers>) ensures o == Some(&tx.request_headers)
spec: ensures r == (match tx { Some(x) => Some(&x.request_headers), None => None::<&Headers> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_headers_size
ret: r
presig: fn htp_tx_request_headers_size =>> fn htp_tx_request_headers_size<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: isize) ensures o == isz(tx.request_headers.elements@.len())
spec: ensures r == (match tx { Some(x) => isz(x.request_headers.elements@.len()), None => -1isize })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_header_index
ret: r
presig: fn htp_tx_request_header_index =>> fn htp_tx_request_header_index<'a>
pre: tx . request_headers . elements . get ( index ) =>> vx_get(&tx.request_headers.elements, index)
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Header>) ensures o == at(tx.request_headers.elements@, index)
closure 1 args: value: &Header
closure 1: -> (o: Option<&Header>) ensures o == Some(value)
spec: ensures r == (match tx { Some(x) => at(x.request_headers.elements@, index), None => None::<&Header> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_header
ret: r
presig: fn htp_tx_request_header =>> fn htp_tx_request_header<'a>
pre: htp_headers_get ( & tx . request_headers , ckey ) =>> htp_headers_get(Some(&tx.request_headers), ckey)
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Header>) ensures o == found(tx.request_headers, ckey)
spec: ensures r == (match tx { Some(x) => found(x.request_headers, ckey), None => None::<&Header> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_headers
ret: r
presig: fn htp_tx_response_headers =>> fn htp_tx_response_headers<'a>
pre: & tx . response_headers as * const Headers =>> Some(&tx.response_headers)
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Headers>) ensures o == Some(&tx.response_headers)
spec: ensures r == (match tx { Some(x) => Some(&x.response_headers), None => None::<&Headers> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_headers_size
ret: r
presig: fn htp_tx_response_headers_size =>> fn htp_tx_response_headers_size<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: isize) ensures o == isz(tx.response_headers.elements@.len())
spec: ensures r == (match tx { Some(x) => isz(x.response_headers.elements@.len()), None => -1isize })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_header_index
ret: r
presig: fn htp_tx_response_header_index =>> fn htp_tx_response_header_index<'a>
pre: tx . response_headers . elements . get ( index ) =>> vx_get(&tx.response_headers.elements, index)
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Header>) ensures o == at(tx.response_headers.elements@, index)
closure 1 args: value: &Header
closure 1: -> (o: Option<&Header>) ensures o == Some(value)
spec: ensures r == (match tx { Some(x) => at(x.response_headers.elements@, index), None => None::<&Header> })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_header
ret: r
presig: fn htp_tx_response_header =>> fn htp_tx_response_header<'a>
pre: htp_headers_get ( & tx . response_headers , ckey ) =>> htp_headers_get(Some(&tx.response_headers), ckey)
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Header>) ensures o == found(tx.response_headers, ckey)
spec: ensures r == (match tx { Some(x) => found(x.response_headers, ckey), None => None::<&Header> })
@*/
/*@ fn c_api/header.rs::htp_headers_size
ret: r
presig: fn htp_headers_size =>> fn htp_headers_size<'a>
closure 0 args: headers: &Headers
closure 0: -> (o: isize) ensures o == isz(headers.elements@.len())
spec: ensures r == (match headers { Some(x) => isz(x.elements@.len()), None => -1isize })
@*/
/*@ fn c_api/header.rs::htp_headers_get_index
ret: r
presig: fn htp_headers_get_index =>> fn htp_headers_get_index<'a>
pre: headers . elements . get ( index ) =>> vx_get(&headers.elements, index)
closure 0 args: headers: &Headers
closure 0: -> (o: Option<&Header>) ensures o == at(headers.elements@, index)
closure 1 args: value: &Header
closure 1: -> (o: Option<&Header>) ensures o == Some(value)
spec: ensures r == (match headers { Some(x) => at(x.elements@, index), None => None::<&Header> })
@*/
/*@ fn c_api/header.rs::htp_header_name
ret: r
presig: fn htp_header_name =>> fn htp_header_name<'a>
pre: & header . name as * const Bstr =>> Some(&header.name)
closure 0 args: header: &Header
closure 0: -> (o: Option<&Bstr>) ensures o == Some(&header.name)
spec: ensures r == (match header { Some(x) => Some(&x.name), None => None::<&Bstr> })
@*/
/*@ fn c_api/header.rs::htp_header_name_len
ret: r
presig: fn htp_header_name_len =>> fn htp_header_name_len<'a>
closure 0 args: header: &Header
closure 0: -> (o: isize) ensures o == isz(header.name@.len())
spec: ensures r == (match header { Some(x) => isz(x.name@.len()), None => -1isize })
@*/
/*@ fn c_api/header.rs::htp_header_value
ret: r
presig: fn htp_header_value =>> fn htp_header_value<'a>
pre: & header . value as * const Bstr =>> Some(&header.value)
closure 0 args: header: &Header
closure 0: -> (o: Option<&Bstr>) ensures o == Some(&header.value)
spec: ensures r == (match header { Some(x) => Some(&x.value), None => None::<&Bstr> })
@*/
/*@ fn c_api/header.rs::htp_header_value_len
ret: r
presig: fn htp_header_value_len =>> fn htp_header_value_len<'a>
closure 0 args: header: &Header
closure 0: -> (o: isize) ensures o == isz(header.value@.len())
spec: ensures r == (match header { Some(x) => isz(x.value@.len()), None => -1isize })
@*/
/*@ fn c_api/uri.rs::htp_uri_port_number
ret: r
presig: fn htp_uri_port_number =>> fn htp_uri_port_number<'a>
closure 0 args: uri: &Uri
closure 0: -> (o: Option<u16>) ensures o == uri.port_number
closure 1 args: port: u16
closure 1: -> (o: i32) ensures o == port as i32
spec: ensures r == (match uri { Some(x) => (match x.port_number { Some(p) => p as i32, None => -1i32 }), None => -1i32 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_port_number
ret: r
presig: fn htp_tx_request_port_number =>> fn htp_tx_request_port_number<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&u16>) ensures o == (match tx.request_port_number { Some(p) => Some(&p), None => None })
closure 1 args: port: &u16
closure 1: -> (o: i32) ensures o == *port as i32
spec: ensures r == (match tx { Some(x) => (match x.request_port_number { Some(p) => p as i32, None => -1i32 }), None => -1i32 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_message_len
ret: r
presig: fn htp_tx_request_message_len =>> fn htp_tx_request_message_len<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: i64) ensures o == i64z(tx.request_message_len)
spec: ensures r == (match tx { Some(x) => i64z(x.request_message_len), None => -1i64 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_entity_len
ret: r
presig: fn htp_tx_request_entity_len =>> fn htp_tx_request_entity_len<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: i64) ensures o == i64z(tx.request_entity_len)
spec: ensures r == (match tx { Some(x) => i64z(x.request_entity_len), None => -1i64 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_message_len
ret: r
presig: fn htp_tx_response_message_len =>> fn htp_tx_response_message_len<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: i64) ensures o == i64z(tx.response_message_len)
spec: ensures r == (match tx { Some(x) => i64z(x.response_message_len), None => -1i64 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_entity_len
ret: r
presig: fn htp_tx_response_entity_len =>> fn htp_tx_response_entity_len<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: i64) ensures o == i64z(tx.response_entity_len)
spec: ensures r == (match tx { Some(x) => i64z(x.response_entity_len), None => -1i64 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_request_content_length
ret: r
presig: fn htp_tx_request_content_length =>> fn htp_tx_request_content_length<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: i64) ensures o == (match tx.request_content_length { Some(n) => i64z(n), None => -1i64 })
closure 1 args: len: u64
closure 1: -> (o: i64) ensures o == i64z(len)
spec: ensures r == (match tx { Some(x) => (match x.request_content_length { Some(n) => i64z(n), None => -1i64 }), None => -1i64 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_content_length
ret: r
presig: fn htp_tx_response_content_length =>> fn htp_tx_response_content_length<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: i64) ensures o == (match tx.response_content_length { Some(n) => i64z(n), None => -1i64 })
closure 1 args: len: u64
closure 1: -> (o: i64) ensures o == i64z(len)
spec: ensures r == (match tx { Some(x) => (match x.response_content_length { Some(n) => i64z(n), None => -1i64 }), None => -1i64 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_index
ret: r
presig: fn htp_tx_index =>> fn htp_tx_index<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: isize) ensures o == isz(tx.index as nat)
spec: ensures r == (match tx { Some(x) => isz(x.index as nat), None => -1isize })
@*/
/*@ fn c_api/transaction.rs::htp_tx_response_status_number
ret: r
presig: fn htp_tx_response_status_number =>> fn htp_tx_response_status_number<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: i32) ensures o == status_no(tx.response_status_number)
spec: ensures r == (match tx { Some(x) => status_no(x.response_status_number), None => -1i32 })
@*/
/*@ fn c_api/transaction.rs::htp_tx_normalized_uri
ret: r
presig: fn htp_tx_normalized_uri =>> fn htp_tx_normalized_uri<'a>
closure 0 args: tx: &Transaction
closure 0: -> (o: Option<&Bstr>) ensures o == oref(if tx.cfg.decoder_cfg.normalized_uri_include_all { tx.complete_normalized_uri } else { tx.partial_normalized_uri })
closure 1 args: uri: &Bstr
closure 1: -> (o: Option<&Bstr>) ensures o == Some(uri)
spec: ensures r == (match tx { Some(x) => oref(if x.cfg.decoder_cfg.normalized_uri_include_all { x.complete_normalized_uri } else { x.partial_normalized_uri }), None => None::<&Bstr> })
@*/
/*@ fn c_api/connection_parser.rs::htp_connp_tx_size
ret: r
presig: fn htp_connp_tx_size =>> fn htp_connp_tx_size<'a>
closure 0 args: connp: &ConnectionParser
closure 0: -> (o: isize) ensures o == isz(connp.transactions.n() as nat)
spec: ensures r == (match connp { Some(c) => isz(c.transactions.n() as nat), None => -1isize })
@*/
/*@ fn c_api/connection_parser.rs::htp_connp_request_data_consumed
ret: r
presig: fn htp_connp_request_data_consumed =>> fn htp_connp_request_data_consumed<'a>
closure 0 args: connp: &ConnectionParser
closure 0: -> (o: i64) ensures o == i64z(connp.request_bytes_consumed as u64)
spec: ensures r == (match connp { Some(c) => i64z(c.request_bytes_consumed as u64), None => -1i64 })
@*/
/*@ fn c_api/connection_parser.rs::htp_connp_response_data_consumed
ret: r
presig: fn htp_connp_response_data_consumed =>> fn htp_connp_response_data_consumed<'a>
closure 0 args: connp: &ConnectionParser
closure 0: -> (o: i64) ensures o == i64z(connp.response_bytes_consumed as u64)
spec: ensures r == (match connp { Some(c) => i64z(c.response_bytes_consumed as u64), None => -1i64 })
@*/
/*@ fn c_api/connection_parser.rs::htp_connp_tx
ret: r
presig: fn htp_connp_tx =>> fn htp_connp_tx<'a>
closure 0 args: connp: &ConnectionParser
closure 0: -> (o: Option<&Transaction>) ensures o == shown_tx(*connp, tx_id)
closure 1 args: tx: &Transaction
closure 1: -> (o: Option<&Transaction>) ensures o == if started(*tx) { Some(tx) } else { None }
spec: ensures r == (match connp { Some(c) => shown_tx(*c, tx_id), None => None::<&Transaction> })
@*/
}
fn main() {}
