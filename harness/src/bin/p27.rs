//! P27: the C interface hands out what the transaction holds.
use harness::*;
use htp::bstr::Bstr;
use htp::c_api::{bstr::*, connection::*, connection_parser::*, header::*, transaction::*, uri::*};
use htp::config::{Config, HtpUnwanted};
use htp::connection_parser::ConnectionParser;
use htp::decompressors::HtpContentEncoding;
use htp::request::HtpMethod;
use htp::transaction::*;
use htp::uri::Uri;
use std::ffi::{CStr, CString};
use std::ptr::null;

fn p<T>(x: &Option<T>) -> *const T { match x { Some(v) => v, None => null() } }
fn n64(x: u64) -> i64 { if x > i64::MAX as u64 { -1 } else { x as i64 } }
macro_rules! same { ($what:expr, $got:expr, $want:expr) => { let (g, w) = ($got, $want); if g != w { return Err(format!("{}: got {:?}, the contract says {:?}", $what, g, w)); } } }

fn headers(h: &Headers) -> Result<(), String> {
    unsafe {
        same!("htp_headers_size", htp_headers_size(h), h.elements.len() as isize);
        same!("htp_headers_flags", htp_headers_flags(h), h.elements.iter().fold(0, |a, x| a | x.flags));
        for i in 0..h.elements.len() + 2 {
            let want = h.elements.get(i).map_or(null(), |x| x as *const Header);
            same!(format!("htp_headers_get_index {}", i), htp_headers_get_index(h, i), want);
        }
        for x in &h.elements {
            same!("htp_header_name", htp_header_name(x), &x.name as *const Bstr);
            same!("htp_header_value", htp_header_value(x), &x.value as *const Bstr);
            same!("htp_header_name_ptr", htp_header_name_ptr(x), x.name.as_ptr());
            same!("htp_header_value_ptr", htp_header_value_ptr(x), x.value.as_ptr());
            same!("htp_header_name_len", htp_header_name_len(x), x.name.len() as isize);
            same!("htp_header_value_len", htp_header_value_len(x), x.value.len() as isize);
            same!("htp_header_flags", htp_header_flags(x), x.flags);
        }
    }
    Ok(())
}
/// the name a field is looked up by: NULs left out, letters in another case
fn keys(h: &Headers) -> Vec<CString> {
    let mut v: Vec<CString> = h.elements.iter().flat_map(|x| {
        let n: Vec<u8> = x.name.iter().copied().filter(|c| *c != 0).collect();
        [n.to_ascii_uppercase(), n.to_ascii_lowercase(), [&n[..], b"x"].concat()].map(|n| CString::new(n).unwrap())
    }).collect();
    v.push(CString::new("").unwrap());
    v.push(CString::new("Content-Length").unwrap());
    v
}
fn by_name(h: &Headers, k: &[u8]) -> *const Header {
    h.elements.iter().find(|x| x.name.iter().filter(|c| **c != 0).map(|c| c.to_ascii_lowercase()).eq(k.iter().map(|c| c.to_ascii_lowercase()))).map_or(null(), |x| x as *const Header)
}
fn uri(u: &Uri) -> Result<(), String> {
    unsafe {
        same!("htp_uri_scheme", htp_uri_scheme(u), p(&u.scheme));
        same!("htp_uri_username", htp_uri_username(u), p(&u.username));
        same!("htp_uri_password", htp_uri_password(u), p(&u.password));
        same!("htp_uri_hostname", htp_uri_hostname(u), p(&u.hostname));
        same!("htp_uri_port", htp_uri_port(u), p(&u.port));
        same!("htp_uri_port_number", htp_uri_port_number(u), u.port_number.map_or(-1, |x| x as i32));
        same!("htp_uri_path", htp_uri_path(u), p(&u.path));
        same!("htp_uri_query", htp_uri_query(u), p(&u.query));
        same!("htp_uri_fragment", htp_uri_fragment(u), p(&u.fragment));
    }
    Ok(())
}
fn tx(t: &Transaction) -> Result<(), String> {
    unsafe {
        same!("htp_tx_request_line", htp_tx_request_line(t), p(&t.request_line));
        same!("htp_tx_request_method", htp_tx_request_method(t), p(&t.request_method));
        same!("htp_tx_request_method_number", htp_tx_request_method_number(t), t.request_method_number);
        same!("htp_tx_request_uri", htp_tx_request_uri(t), p(&t.request_uri));
        same!("htp_tx_request_protocol", htp_tx_request_protocol(t), p(&t.request_protocol));
        same!("htp_tx_request_protocol_number", htp_tx_request_protocol_number(t), t.request_protocol_number);
        same!("htp_tx_is_protocol_0_9", htp_tx_is_protocol_0_9(t), t.is_protocol_0_9 as i32);
        same!("htp_tx_is_http_2_upgrade", htp_tx_is_http_2_upgrade(t), t.is_http_2_upgrade as i32);
        same!("htp_tx_parsed_uri", htp_tx_parsed_uri(t), p(&t.parsed_uri));
        same!("htp_tx_normalized_uri", htp_tx_normalized_uri(t), if t.cfg.decoder_cfg.normalized_uri_include_all { p(&t.complete_normalized_uri) } else { p(&t.partial_normalized_uri) });
        same!("htp_tx_request_headers", htp_tx_request_headers(t), &t.request_headers as *const Headers);
        same!("htp_tx_request_headers_size", htp_tx_request_headers_size(t), t.request_headers.elements.len() as isize);
        same!("htp_tx_request_transfer_coding", htp_tx_request_transfer_coding(t), t.request_transfer_coding);
        same!("htp_tx_request_content_encoding", htp_tx_request_content_encoding(t), t.request_content_encoding);
        same!("htp_tx_request_content_type", htp_tx_request_content_type(t), p(&t.request_content_type));
        same!("htp_tx_request_content_length", htp_tx_request_content_length(t), t.request_content_length.map_or(-1, n64));
        same!("htp_tx_request_auth_type", htp_tx_request_auth_type(t), t.request_auth_type);
        same!("htp_tx_request_hostname", htp_tx_request_hostname(t), p(&t.request_hostname));
        same!("htp_tx_request_port_number", htp_tx_request_port_number(t), t.request_port_number.map_or(-1, |x| x as i32));
        same!("htp_tx_request_message_len", htp_tx_request_message_len(t), n64(t.request_message_len));
        same!("htp_tx_request_entity_len", htp_tx_request_entity_len(t), n64(t.request_entity_len));
        same!("htp_tx_response_line", htp_tx_response_line(t), p(&t.response_line));
        same!("htp_tx_response_protocol", htp_tx_response_protocol(t), p(&t.response_protocol));
        same!("htp_tx_response_protocol_number", htp_tx_response_protocol_number(t), t.response_protocol_number);
        same!("htp_tx_response_status", htp_tx_response_status(t), p(&t.response_status));
        same!("htp_tx_response_status_number", htp_tx_response_status_number(t), match t.response_status_number { HtpResponseNumber::UNKNOWN => 0, HtpResponseNumber::INVALID => -1, HtpResponseNumber::VALID(n) => n as i32 });
        same!("htp_tx_response_status_expected_number", htp_tx_response_status_expected_number(t), match t.response_status_expected_number { HtpUnwanted::IGNORE => 0, HtpUnwanted::CODE_400 => 400, HtpUnwanted::CODE_404 => 404 });
        same!("htp_tx_response_message", htp_tx_response_message(t), p(&t.response_message));
        same!("htp_tx_response_headers", htp_tx_response_headers(t), &t.response_headers as *const Headers);
        same!("htp_tx_response_headers_size", htp_tx_response_headers_size(t), t.response_headers.elements.len() as isize);
        same!("htp_tx_response_message_len", htp_tx_response_message_len(t), n64(t.response_message_len));
        same!("htp_tx_response_entity_len", htp_tx_response_entity_len(t), n64(t.response_entity_len));
        same!("htp_tx_response_content_length", htp_tx_response_content_length(t), t.response_content_length.map_or(-1, n64));
        same!("htp_tx_response_content_type", htp_tx_response_content_type(t), p(&t.response_content_type));
        same!("htp_tx_flags", htp_tx_flags(t), t.flags);
        same!("htp_tx_request_progress", htp_tx_request_progress(t), t.request_progress);
        same!("htp_tx_response_progress", htp_tx_response_progress(t), t.response_progress);
        same!("htp_tx_index", htp_tx_index(t), t.index as isize);
        for (h, get, at) in [(&t.request_headers, htp_tx_request_header as unsafe extern "C" fn(_, _) -> _, htp_tx_request_header_index as unsafe extern "C" fn(_, _) -> _), (&t.response_headers, htp_tx_response_header, htp_tx_response_header_index)] {
            headers(h)?;
            for k in keys(h) {
                same!(format!("header {:?}", k), get(t as *const Transaction, k.as_ptr()), by_name(h, k.to_bytes()));
                same!(format!("htp_headers_get {:?}", k), htp_headers_get(h, k.as_ptr()), by_name(h, k.to_bytes()));
            }
            same!("header by a NULL name", get(t, null()), null());
            for i in 0..h.elements.len() + 2 { same!(format!("header {}", i), at(t as *const Transaction, i), h.elements.get(i).map_or(null(), |x| x as *const Header)); }
        }
    }
    if let Some(u) = &t.parsed_uri { uri(u)? }
    Ok(())
}
fn nulls() -> Result<(), String> {
    unsafe {
        let t: *const Transaction = null();
        let k = CString::new("a").unwrap();
        for (n, g) in [("htp_tx_request_line", htp_tx_request_line(t)), ("htp_tx_request_method", htp_tx_request_method(t)), ("htp_tx_request_uri", htp_tx_request_uri(t)), ("htp_tx_request_protocol", htp_tx_request_protocol(t)), ("htp_tx_request_content_type", htp_tx_request_content_type(t)), ("htp_tx_request_hostname", htp_tx_request_hostname(t)), ("htp_tx_response_line", htp_tx_response_line(t)), ("htp_tx_response_protocol", htp_tx_response_protocol(t)), ("htp_tx_response_status", htp_tx_response_status(t)), ("htp_tx_response_message", htp_tx_response_message(t)), ("htp_tx_response_content_type", htp_tx_response_content_type(t)), ("htp_header_name", htp_header_name(null())), ("htp_header_value", htp_header_value(null())), ("htp_uri_scheme", htp_uri_scheme(null())), ("htp_uri_username", htp_uri_username(null())), ("htp_uri_password", htp_uri_password(null())), ("htp_uri_hostname", htp_uri_hostname(null())), ("htp_uri_port", htp_uri_port(null())), ("htp_uri_path", htp_uri_path(null())), ("htp_uri_query", htp_uri_query(null())), ("htp_uri_fragment", htp_uri_fragment(null())), ("htp_tx_normalized_uri", htp_tx_normalized_uri(t))] { same!(n, g, null()); }
        same!("htp_tx_parsed_uri", htp_tx_parsed_uri(t), null());
        for (n, g) in [("htp_tx_request_headers", htp_tx_request_headers(t)), ("htp_tx_response_headers", htp_tx_response_headers(t))] { same!(n, g, null()); }
        for (n, g) in [("htp_tx_request_header", htp_tx_request_header(t, k.as_ptr())), ("htp_tx_response_header", htp_tx_response_header(t, k.as_ptr())), ("htp_tx_request_header_index", htp_tx_request_header_index(t, 0)), ("htp_tx_response_header_index", htp_tx_response_header_index(t, 0)), ("htp_headers_get", htp_headers_get(null(), k.as_ptr())), ("htp_headers_get_index", htp_headers_get_index(null(), 0))] { same!(n, g, null()); }
        for (n, g) in [("htp_header_name_ptr", htp_header_name_ptr(null())), ("htp_header_value_ptr", htp_header_value_ptr(null()))] { same!(n, g, null()); }
        for (n, g) in [("htp_tx_request_content_length", htp_tx_request_content_length(t)), ("htp_tx_response_content_length", htp_tx_response_content_length(t)), ("htp_tx_request_message_len", htp_tx_request_message_len(t)), ("htp_tx_request_entity_len", htp_tx_request_entity_len(t)), ("htp_tx_response_message_len", htp_tx_response_message_len(t)), ("htp_tx_response_entity_len", htp_tx_response_entity_len(t)), ("htp_connp_request_data_consumed", htp_connp_request_data_consumed(null())), ("htp_connp_response_data_consumed", htp_connp_response_data_consumed(null())), ("htp_tx_index", htp_tx_index(t) as i64), ("htp_tx_request_headers_size", htp_tx_request_headers_size(t) as i64), ("htp_tx_response_headers_size", htp_tx_response_headers_size(t) as i64), ("htp_headers_size", htp_headers_size(null()) as i64), ("htp_header_name_len", htp_header_name_len(null()) as i64), ("htp_header_value_len", htp_header_value_len(null()) as i64), ("htp_connp_tx_size", htp_connp_tx_size(null()) as i64), ("htp_tx_request_port_number", htp_tx_request_port_number(t) as i64), ("htp_uri_port_number", htp_uri_port_number(null()) as i64), ("htp_tx_response_status_number", htp_tx_response_status_number(t) as i64), ("htp_tx_response_status_expected_number", htp_tx_response_status_expected_number(t) as i64)] { same!(n, g, -1); }
        for (n, g) in [("htp_tx_flags", htp_tx_flags(t)), ("htp_header_flags", htp_header_flags(null())), ("htp_headers_flags", htp_headers_flags(null())), ("htp_conn_request_data_counter", htp_conn_request_data_counter(null())), ("htp_conn_response_data_counter", htp_conn_response_data_counter(null())), ("htp_tx_is_protocol_0_9", htp_tx_is_protocol_0_9(t) as u64), ("htp_tx_is_http_2_upgrade", htp_tx_is_http_2_upgrade(t) as u64)] { same!(n, g, 0); }
        same!("htp_tx_request_method_number", htp_tx_request_method_number(t), HtpMethod::ERROR);
        same!("htp_tx_request_protocol_number", htp_tx_request_protocol_number(t), HtpProtocol::ERROR);
        same!("htp_tx_response_protocol_number", htp_tx_response_protocol_number(t), HtpProtocol::ERROR);
        same!("htp_tx_request_transfer_coding", htp_tx_request_transfer_coding(t), HtpTransferCoding::ERROR);
        same!("htp_tx_request_content_encoding", htp_tx_request_content_encoding(t), HtpContentEncoding::ERROR);
        same!("htp_tx_request_auth_type", htp_tx_request_auth_type(t), HtpAuthType::ERROR);
        same!("htp_tx_request_progress", htp_tx_request_progress(t), HtpRequestProgress::ERROR);
        same!("htp_tx_response_progress", htp_tx_response_progress(t), HtpResponseProgress::ERROR);
        same!("htp_connp_tx", htp_connp_tx(std::ptr::null_mut(), 0), null());
        same!("bstr_util_strdup_to_c", bstr_util_strdup_to_c(null()), std::ptr::null_mut());
    }
    Ok(())
}
extern "C" { fn free(p: *mut std::ffi::c_void); }
fn string(c: &mut Ctx, s: &[u8], k: &[u8]) {
    c.check("strings", &[s, &[0], k].concat(), !s.is_empty(), &|| format!("{} compared with {}", esc(s), esc(k)), || unsafe {
        let b = Bstr::from(s);
        same!("bstr_len", bstr_len(&b), s.len());
        same!("bstr_ptr", bstr_ptr(&b) as *const u8, b.as_ptr());
        let d = bstr_util_strdup_to_c(&b);
        let got = CStr::from_ptr(d).to_bytes().to_vec();
        free(d as *mut _);
        let want: Vec<u8> = s.iter().flat_map(|c| if *c == 0 { b"\\0".to_vec() } else { vec![*c] }).collect();
        same!("bstr_util_strdup_to_c", esc(&got), esc(&want));
        let ks: Vec<u8> = k.iter().copied().filter(|c| *c != 0).collect();
        let kc = CString::new(ks.clone()).unwrap();
        same!("bstr_cmp_c", bstr_cmp_c(&b, kc.as_ptr()), s.cmp(&ks[..]) as i32);
        same!("bstr_cmp_c_nocase", bstr_cmp_c_nocase(&b, kc.as_ptr()), s.to_ascii_lowercase().cmp(&ks.to_ascii_lowercase()) as i32);
        let n = bstr_dup_c(kc.as_ptr());
        let got = (*n).as_slice().to_vec();
        bstr_free(n);
        same!("bstr_dup_c", esc(&got), esc(&ks));
        Ok(())
    });
}
fn conn(d: &mut ConnectionParser) -> Result<(), String> {
    unsafe {
        same!("htp_connp_tx_size", htp_connp_tx_size(d), d.tx_size() as isize);
        same!("htp_connp_connection", htp_connp_connection(d), &d.conn as *const _);
        same!("htp_conn_request_data_counter", htp_conn_request_data_counter(&d.conn), d.conn.request_data_counter);
        same!("htp_conn_response_data_counter", htp_conn_response_data_counter(&d.conn), d.conn.response_data_counter);
        same!("htp_connp_request_data_consumed", htp_connp_request_data_consumed(d), d.request_data_consumed() as i64);
        same!("htp_connp_response_data_consumed", htp_connp_response_data_consumed(d), d.response_data_consumed() as i64);
        for i in 0..d.tx_size() + 3 {
            let want = match d.tx(i) { Some(t) if t.request_progress != HtpRequestProgress::NOT_STARTED || t.response_progress != HtpResponseProgress::NOT_STARTED => t as *const Transaction, _ => null() };
            same!(format!("htp_connp_tx {}", i), htp_connp_tx(d, i), want);
            if let Some(t) = d.tx(i) { tx(t)? }
        }
    }
    Ok(())
}
fn main() {
    run("the transaction has a request line", |c| {
        let mut r = c.rng.clone();
        c.phase("NULL", 2);
        c.check("NULL arguments", b"", true, &|| "NULL".into(), nulls);
        c.phase("short strings", 8);
        all_strings(b"aA\0b", 4, &mut |s| { for k in [&b"a"[..], b"AB", b"", b"b", b"aa"] { string(c, s, k); } !c.done() });
        c.phase("extreme numbers", 10);
        for (i, n) in [0u64, 1, 255, 65535, u32::MAX as u64, i64::MAX as u64 - 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX].iter().enumerate() { for k in 0..6 {
            c.check("extreme numbers", &[i as u8, k as u8], true, &|| format!("{} in place {}", n, k), || {
                let mut d = Driver::new(Config::default());
                d.req(b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: 4\r\n\r\nab");
                let t = d.p.tx_mut(0).ok_or("no transaction")?;
                let f = [&mut t.request_message_len, &mut t.request_entity_len, &mut t.response_message_len, &mut t.response_entity_len];
                if k < 4 { *f[k] = *n } else if k == 4 { t.request_content_length = Some(*n) } else { t.response_content_length = Some(*n) }
                t.request_port_number = Some(*n as u16);
                t.response_status_number = HtpResponseNumber::VALID(*n as u16);
                t.response_status_expected_number = [HtpUnwanted::IGNORE, HtpUnwanted::CODE_400, HtpUnwanted::CODE_404][k % 3];
                t.flags = *n;
                t.is_http_2_upgrade = k % 2 == 0;
                if let Some(u) = &mut t.parsed_uri { u.port_number = Some(*n as u16); u.port = Some(Bstr::from("x")); u.fragment = if k % 2 == 0 { Some(Bstr::from("f")) } else { None }; }
                tx(t)
            });
        } }
        c.phase("histories", 100);
        while !c.done() {
            let ops = gen::history(&mut r, true, true);
            let all = r.chance(1, 2);
            c.check("histories", &gen::key(&ops), true, &|| gen::show_ops(&ops), || {
                let mut cfg = Config::default();
                cfg.decoder_cfg.normalized_uri_include_all = all;
                cfg.parse_request_auth = true;
                let mut d = Driver::new(cfg);
                for o in &ops { d.op(o); conn(&mut d.p)?; }
                Ok(())
            });
            if r.chance(1, 4) { let (s, k) = (r.pieces(&[b"a", b"A", b"\0", b"\\", b"bc", b"\xff"], 6), r.pieces(&[b"a", b"A", b"bc"], 4)); string(c, &s, &k); }
        }
    });
}
