fn main() {
    vrt::native::main(&vh::table());
}
