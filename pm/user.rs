// Compiled with the vpm macro; its tokens provide the spans the checks use.
macro_rules! go {
    ($e:expr, $t:ty, $l:literal, $i:ident, $lt:lifetime, $n:literal, $x:tt) => {
        vpm::run! {
            a bb + ( é [ x ] ) "日本" {
                y 1.5e3 , 'l' 'life
                r#raw ::
            }
            b"q\x01r" <= zzz ( ) 0xFFu8 /* c */ ; "two
            lines" [ m { n } ] c"end" r#"ra"w"#
            [] {} [k] (;) { - 1 } ((())) 7 1u8 '日' b'\'' cr"x" br##"y"##
            $e , $t $l $i $lt ( $e ) [ $t ] $n $x { $x } /** doc
            comment */ //! more
            end
        }
    };
}
go!(1 + xé * (2), Vec<u8>, "lit", name, 'a, -5, (q "w"));
