// A TLC value holding one IEEE double.
import tlc2.tool.FingerprintException;
import tlc2.value.*;
import tlc2.value.impl.*;
import tlc2.util.FP64;

public class RealVal extends Value {
    public final double x;
    public RealVal(double x) { this.x = x; }
    @Override public byte getKind() { return REALVALUE; }
    @Override public int compareTo(Object o) {
        if (o instanceof RealVal) return Double.compare(x, ((RealVal) o).x);
        if (o instanceof IntValue) return Double.compare(x, ((IntValue) o).val);
        return -1;
    }
    @Override public boolean equals(Object o) {
        if (o instanceof RealVal) return x == ((RealVal) o).x;
        if (o instanceof IntValue) return x == ((IntValue) o).val;
        return false;
    }
    @Override public boolean member(Value v) { throw new RuntimeException("number as set"); }
    @Override public boolean isFinite() { return false; }
    @Override public Value takeExcept(ValueExcept e) { return e.value; }
    @Override public Value takeExcept(ValueExcept[] e) { return this; }
    @Override public int size() { return 0; }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }
    @Override public void write(IValueOutputStream s) { throw new RuntimeException("RealVal not serialisable"); }
    @Override public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, REALVALUE);
        return FP64.Extend(fp, Double.doubleToLongBits(x));
    }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append(x); }
}
