use m_bus_parser::*;
fn main(){
    let a: Vec<String> = std::env::args().collect();
    let key = a.get(3).map(|k| <[u8;16]>::try_from(mbus_verif::util::unhex(k)).unwrap());
    match a[1].as_str() {
        "rec" => println!("{}", match decode_data_records_hex(&a[2]) { Ok(r)=>serde_json::to_string_pretty(&r).unwrap(), Err(e)=>format!("{} {e}", e.code())}),
        f if f.starts_with('=') => println!("{}", serialize_mbus_data(&a[2], &f[1..], key.as_ref())),
        f => println!("{}", match render_hex(&a[2], f.parse().unwrap(), &RenderOptions{decode: DecodeOptions{key, include_enrichment:false}, table_width:None}) {Ok(r)=>r, Err(e)=>format!("{} {e}", e.code())}),
    }
}
